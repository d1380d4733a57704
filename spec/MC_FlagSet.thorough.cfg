CONSTANTS Flags = {0, 31, 32, 63} Width = 64
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES OtherSetKept
CHECK_DEADLOCK FALSE
