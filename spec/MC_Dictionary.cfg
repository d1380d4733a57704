CONSTANTS MaxLen = 3
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Inverse
CHECK_DEADLOCK FALSE
