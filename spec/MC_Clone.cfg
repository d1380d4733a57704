CONSTANTS MaxVecs = 2 MaxLen = 2
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Independent
CHECK_DEADLOCK FALSE
