CONSTANTS MaxOpts = 2 MaxLen = 8
INIT MCInit
NEXT MCNext
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Emit
INVARIANT Sound
CHECK_DEADLOCK FALSE
