CONSTANTS Paths <- SomePaths Contents <- SomeContents Limits = {1} Depth = 2 Size = 3
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS WellFormed
PROPERTIES OneFile
CHECK_DEADLOCK FALSE
