CONSTANTS Alphabet = {97, 34, 61, 32, 49, 10, 92} MaxLen = 3 MaxCalls = 6
INIT MCInit
NEXT MCNext
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InText
PROPERTIES MovesOn StaysBad NothingLost
CHECK_DEADLOCK FALSE
