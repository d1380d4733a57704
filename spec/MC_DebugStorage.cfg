CONSTANTS MaxWrites = 5 MaxLabels = 3
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Complete
CHECK_DEADLOCK FALSE
