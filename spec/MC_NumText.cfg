CONSTANTS Range1 = 130 MaxLen = 3
INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANTS RoundTrip RealTrip VecBounded
CHECK_DEADLOCK FALSE
