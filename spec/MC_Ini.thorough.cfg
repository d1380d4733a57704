CONSTANTS MaxLines = 4 LineSet = {1, 2, 4, 5, 6, 8, 10, 12, 13} ValLen = 3
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
