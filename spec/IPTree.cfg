SPECIFICATION Spec
CONSTANTS
  WM = 2
  WL = 2
  MaxN = 2
  VARIANT = "any"
  EMIT = FALSE
INVARIANTS Structure Lookups EmitState
CHECK_DEADLOCK FALSE
