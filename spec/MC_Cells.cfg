CONSTANTS MaxOpts = 2 MaxLen = 5
INIT MCInit
NEXT MCNext
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Emit
INVARIANT Sound
CHECK_DEADLOCK FALSE
