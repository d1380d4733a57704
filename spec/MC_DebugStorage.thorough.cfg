CONSTANTS MaxWrites = 7 MaxLabels = 4
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Complete
CHECK_DEADLOCK FALSE
