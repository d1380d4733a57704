CONSTANTS Points = {0, 392, 397, 399, 400, 401, 402, 404, 500} MaxN = 12
INIT MCInit
NEXT MCNext
INVARIANT Lines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
