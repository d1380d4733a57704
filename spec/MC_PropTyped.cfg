CONSTANTS MaxSize = 2 Core = {"int", "str", "vec3"}
CONSTANTS Texts64 <- Dyadic
INIT MCInit
NEXT MCNext
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
