CONSTANTS ValLen = 4 Deep = 1
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
