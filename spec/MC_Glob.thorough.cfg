CONSTANTS MaxText = 4 MaxPat = 5
INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANT TwoDefinitionsAgree
CHECK_DEADLOCK FALSE
