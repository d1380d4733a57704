CONSTANTS MaxTime = 4 MaxTags = 2 MaxLen = 8
INIT MCInit
NEXT MCNext
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Emit
INVARIANTS Complete
CHECK_DEADLOCK FALSE
