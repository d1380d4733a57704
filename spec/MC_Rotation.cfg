INIT MCInit
NEXT MCNext
ACTION_CONSTRAINT Emit
INVARIANTS Homomorphism Isometry Undone UndoneT
CHECK_DEADLOCK FALSE
