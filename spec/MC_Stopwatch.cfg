CONSTANTS MaxTime = 3 MaxTags = 2 MaxLen = 7
INIT MCInit
NEXT MCNext
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Emit
INVARIANTS Complete
CHECK_DEADLOCK FALSE
