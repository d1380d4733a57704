---------------------------- MODULE MC_Stopwatch ----------------------------
EXTENDS Stopwatch, TLC, Json
CONSTANTS MaxTime, MaxTags, MaxLen
VARIABLES hist, born         \* born: when each watch's measures began
a == <<97>>
OfTimers == { <<f, i>> : f \in {"timer", "reset", "ns", "ticks", "us", "ms", "seconds", "minutes", "hours"}, i \in Ids } \cup { <<"copy", 1, 2>> }
OfWatches == { <<f, i>> : f \in {"watch", "first", "report"}, i \in Ids } \cup { <<"measure", i, t>> : i \in Ids, t \in { a, <<>>, INTERNAL } }
Steps == { <<"advance", 1, 0, 0>>, <<"advance", 0, 500000, 0>>, <<"advance", 0, 999, 999>> }
NoTimer == \A i \in Ids : ~Is(i)
NoWatch == \A i \in Ids : ~IsW(i)
MCInit == Init /\ hist = <<>> /\ born = [i \in Ids |-> Zero]
\* timers and stopwatches know nothing of each other: one kind per history; nanoseconds for timers only
MCNext == \E c \in OfTimers \cup OfWatches \cup Steps :
             /\ (IF c \in OfTimers THEN NoWatch ELSE IF c \in OfWatches THEN NoTimer ELSE c[4] = 0 \/ ~NoTimer)
             /\ (IF Len(c) > 1 /\ c[1] \in {"watch", "timer"} /\ c[2] = 2 THEN Is(1) \/ IsW(1) ELSE TRUE)
             /\ Call(c) /\ hist' = Append(hist, c)
             /\ born' = IF c[1] = "watch" THEN [born EXCEPT ![c[2]] = clock] ELSE IF c[1] = "first" THEN [born EXCEPT ![c[2]] = Plus(@, Minus(clock, watches[c[2]][1]))] ELSE born
Small == clock[1] < MaxTime /\ Len(hist) < MaxLen /\ \A i \in Ids : IF IsW(i) THEN Len(watches[i][2]) <= MaxTags ELSE TRUE
View == <<clock, timers, watches>>
Emit == PrintT("H " \o ToJson(hist'))
Complete == \A i \in Ids : IsW(i) => Sum(watches[i][2]) = Minus(watches[i][1], born[i])
=============================================================================
