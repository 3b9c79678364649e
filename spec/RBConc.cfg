SPECIFICATION Spec
CONSTANTS
  Proc = {p1, p2}
  Reader = {r1}
  MaxN = 3
  INPLACE = FALSE
INVARIANTS Isolated Frozen
VIEW View
CHECK_DEADLOCK FALSE
