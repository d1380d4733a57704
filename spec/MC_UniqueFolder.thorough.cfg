CONSTANTS Maxes = {2} Users = {1, 2, 3}
CONSTANTS Bases <- SomeBases Rivals <- SomeRivals
INIT MCInit
NEXT MCNext
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Emit
INVARIANTS Unique
PROPERTIES NeverLost Refines
CHECK_DEADLOCK FALSE
