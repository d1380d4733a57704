CONSTANT N = 20
INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANTS Nearest Soft0
CHECK_DEADLOCK FALSE
