CONSTANTS Alphabet = {1, 32, 97, 98, 126} MaxLen = 4
INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANTS InParts
CHECK_DEADLOCK FALSE
