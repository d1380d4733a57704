CONSTANTS MaxLen = 6
INIT MCInit
NEXT MCNext
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Emit
INVARIANTS Settled Silent
CHECK_DEADLOCK FALSE
