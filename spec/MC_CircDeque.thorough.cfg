CONSTANTS MaxSize = 5 MaxCap = 6 Vals = {1, 2}
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS CapacityEnough
CHECK_DEADLOCK FALSE
