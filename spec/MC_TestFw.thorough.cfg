CONSTANTS MaxTests = 6 ResetKnown = FALSE
INIT MCInit
NEXT MCNext
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Emit
INVARIANTS Sums Counted
CHECK_DEADLOCK FALSE
