CONSTANTS MaxNodes = 3 MaxDepth = 2
INIT MCInit
NEXT MCNext
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS Laws
PROPERTIES Independent
CHECK_DEADLOCK FALSE
