SPECIFICATION Spec
CONSTANTS
  L = 2
  D = 3
  MaxN = 3
  EMIT = FALSE
INVARIANTS NoRemains Lookups EmitState
CHECK_DEADLOCK FALSE
