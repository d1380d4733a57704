CONSTANTS MaxLines = 3 LineSet = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16} ValLen = 3
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
