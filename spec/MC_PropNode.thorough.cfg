CONSTANTS MaxNodes = 4 MaxDepth = 3
INIT MCInit
NEXT MCNext
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS Laws
PROPERTIES Independent
CHECK_DEADLOCK FALSE
