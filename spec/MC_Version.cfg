INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
