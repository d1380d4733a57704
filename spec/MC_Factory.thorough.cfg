CONSTANTS MaxReg = 4
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Distinct
PROPERTIES OnlyCreatingCreates Kept
CHECK_DEADLOCK FALSE
