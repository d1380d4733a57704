CONSTANTS Shapes = {1, 2, 3}
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Sane
PROPERTIES OnlyClearingUnmarks
CHECK_DEADLOCK FALSE
