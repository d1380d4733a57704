CONSTANTS MaxKids = 1 Rich = TRUE
INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANTS Complete Kept
CHECK_DEADLOCK FALSE
