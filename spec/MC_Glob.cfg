CONSTANTS MaxText = 3 MaxPat = 4
INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANT TwoDefinitionsAgree
CHECK_DEADLOCK FALSE
