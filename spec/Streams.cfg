SPECIFICATION Spec
CONSTANTS
  Str = {1, 2}
  MaxDerive = 1
  MUTATE = FALSE
  NOCLOSE = FALSE
  SHAPE = 1
INVARIANTS Exactly Clean
PROPERTY Ends
CHECK_DEADLOCK FALSE
