CONSTANTS Keys = {1, 2, 3} MaxIns = 6
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Sorted Stable
PROPERTIES Kept
CHECK_DEADLOCK FALSE
