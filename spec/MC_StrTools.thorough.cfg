CONSTANTS Alphabet = {58, 61, 46, 95, 47, 32, 109} MaxLen = 4
INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANT Holds
CHECK_DEADLOCK FALSE
