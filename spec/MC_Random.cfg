CONSTANTS MaxDraws = 4
INIT MCInit
NEXT MCNext
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Emit
INVARIANTS Determined
CHECK_DEADLOCK FALSE
