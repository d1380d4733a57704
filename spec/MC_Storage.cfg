CONSTANTS MaxFr = 2 MaxCh = 2 MaxLen = 4
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Rectangular Labels
PROPERTIES CellsKept ErrKeepsAll
CHECK_DEADLOCK FALSE
