SPECIFICATION Spec
CONSTANTS
  NStr = 2
  NDerive = 1
  NKeys = 3
  EMIT = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
