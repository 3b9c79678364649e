SPECIFICATION TraceSpec
CONSTANT Slot = {1, 2, 3, 4, 5}
VIEW TraceView
ALIAS TraceAlias
CHECK_DEADLOCK TRUE
