SPECIFICATION Spec
CONSTANTS
  W = 2
  MaxN = 7
  GARBAGE = TRUE
  EMIT = FALSE
INVARIANTS Structure Lookups EmitState
CHECK_DEADLOCK FALSE
