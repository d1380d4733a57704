CONSTANTS Alphabet = {61, 46, 95, 47, 32, 109} MaxLen = 3
INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANT Holds
CHECK_DEADLOCK FALSE
