CONSTANTS Range1 = 3000 MaxLen = 4
INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANTS RoundTrip RealTrip VecBounded
CHECK_DEADLOCK FALSE
