CONSTANTS Alphabet = {34, 92, 48, 51, 110, 10, 65} MaxLen = 5
INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANT Holds
CHECK_DEADLOCK FALSE
