CONSTANTS Flags = {0, 5, 7} Width = 8
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES OtherSetKept
CHECK_DEADLOCK FALSE
