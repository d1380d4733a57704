CONSTANT N = 6
INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANT Law
CHECK_DEADLOCK FALSE
