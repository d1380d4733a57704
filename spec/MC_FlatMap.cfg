CONSTANTS NK = 3 NV = 2 MaxLen = 3
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OneEntryPerKey SizeIsKeys
PROPERTIES OrderKept OneKeyTouched ErrChangesNothing
CHECK_DEADLOCK FALSE
