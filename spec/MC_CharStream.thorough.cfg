CONSTANTS Alphabet = {97, 34, 61, 92, 39, 32, 49, 10} MaxLen = 5 MaxCalls = 6
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InText
PROPERTIES MovesOn StaysBad NothingLost
CHECK_DEADLOCK FALSE
