CONSTANTS MaxLog = 4
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OncePerArguments
PROPERTIES Stable NoMemoryOfFailure
CHECK_DEADLOCK FALSE
