CONSTANTS Levels = {1, 4, 7} MsgLevels = {1, 3, 4, 6} Kinds1 = {"mem", "stream"} Kinds2 = {"mem"}
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Respect
CHECK_DEADLOCK FALSE
