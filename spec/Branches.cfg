SPECIFICATION Spec
CONSTANTS
  Slot = {1, 2, 3, 4}
  SHAPE = "tree"
  NCLS = 7
  TOUCH = {1, 2, 3, 4, 5, 6, 7}
  SEEDS = {{}, {1, 3, 6}}
  DEPTH = 2
  UPD = FALSE
  EMIT = FALSE
INVARIANT Explained
INVARIANT EmitHistory
PROPERTY OldVersionsStay
CHECK_DEADLOCK FALSE
