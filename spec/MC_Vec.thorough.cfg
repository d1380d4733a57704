CONSTANT N = 5
INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANT Laws
CHECK_DEADLOCK FALSE
