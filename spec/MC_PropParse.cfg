CONSTANTS Skeletons = {1, 2, 3, 4, 5, 6, 7, 8} Wide = {2, 3}
INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANTS LayoutFree
CHECK_DEADLOCK FALSE
