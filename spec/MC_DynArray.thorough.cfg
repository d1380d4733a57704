CONSTANTS MaxN = 2 Active = {1, 2, 3}
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Independent
CHECK_DEADLOCK FALSE
