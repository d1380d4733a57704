INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANTS Through Normal
CHECK_DEADLOCK FALSE
