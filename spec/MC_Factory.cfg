CONSTANTS MaxReg = 2
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Distinct
PROPERTIES OnlyCreatingCreates Kept
CHECK_DEADLOCK FALSE
