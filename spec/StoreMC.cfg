SPECIFICATION Spec
CONSTANTS
  Slot = {1, 2}
  Values = {1, 2}
  MaxSize = 2
  NCls = 3
CONSTRAINT Small
INVARIANT NearestOK
PROPERTIES OnlyTarget NoSharedInplace
CHECK_DEADLOCK FALSE
