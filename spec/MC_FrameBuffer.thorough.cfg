CONSTANTS MaxCount = 4 MaxN = 3 MaxCh = 2
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS MostRecent Rectangular Labels
PROPERTIES Shift
CHECK_DEADLOCK FALSE
