CONSTANTS Paths <- MorePaths Contents <- SomeContents Limits = {1} Depth = 3 Size = 3
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS WellFormed
PROPERTIES OneFile
CHECK_DEADLOCK FALSE
