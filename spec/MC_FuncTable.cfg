CONSTANTS Points = {392, 397, 400, 401, 404} MaxN = 5
INIT MCInit
NEXT MCNext
INVARIANT Lines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
