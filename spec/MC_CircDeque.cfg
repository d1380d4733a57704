CONSTANTS MaxSize = 4 MaxCap = 5 Vals = {1, 2}
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS CapacityEnough
CHECK_DEADLOCK FALSE
