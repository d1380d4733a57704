CONSTANTS Levels = {1, 3, 4, 6, 7} MsgLevels = {1, 2, 3, 4, 5, 6, 7} Kinds1 = {"mem", "stream"} Kinds2 = {"mem"}
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Respect
CHECK_DEADLOCK FALSE
