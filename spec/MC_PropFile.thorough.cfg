CONSTANTS Chars = {97, 13, 35, 91, 11, 12, 1, 255, 32, 34, 39, 92, 61, 123, 125, 37, 59, 10, 9, 48} MaxLen = 3
CONSTANTS Chars2 = {97, 125, 13, 9, 47, 38, 48, 200, 31, 32, 34, 39, 92, 61, 123, 37, 59, 10}
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES OneAtATime
CHECK_DEADLOCK FALSE
