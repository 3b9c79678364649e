SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANT Mirrors
PROPERTIES Apart Ends
CHECK_DEADLOCK FALSE
