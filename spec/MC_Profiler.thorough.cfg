CONSTANTS MaxNodes = 4 MaxDepth = 3 MaxTime = 4
INIT MCInit
NEXT MCNext
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Emit
INVARIANTS OnePerPath Nested Accounted
CHECK_DEADLOCK FALSE
