SPECIFICATION Spec
CONSTANT MaxN = 6
INVARIANT Depicts
CHECK_DEADLOCK FALSE
