CONSTANTS MaxLen = 6
INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANTS SplitAtSeparator SplitAtDot NoSepInName
PROPERTIES NameOnly JoinOneSep
CHECK_DEADLOCK FALSE
