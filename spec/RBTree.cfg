SPECIFICATION Spec
CONSTANTS
  MaxN = 11
  EMIT = FALSE
INVARIANTS Balanced Logarithmic
CHECK_DEADLOCK FALSE
