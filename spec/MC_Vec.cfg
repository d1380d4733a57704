CONSTANT N = 2
INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANT Laws
CHECK_DEADLOCK FALSE
