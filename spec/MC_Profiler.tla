----------------------------- MODULE MC_Profiler -----------------------------
EXTENDS Profiler, Json
CONSTANTS MaxNodes, MaxDepth, MaxTime
VARIABLE hist
Names == { <<97>>, <<98>>, TOTAL }
Calls == { <<"start", n>> : n \in Names } \cup { <<"end">>, <<"report">>, <<"advance", 1>> } \cup { <<"reset", 1000>> }
MCInit == Init /\ hist = <<>>
MCNext == \E c \in Calls : (IF c[1] = "reset" THEN nodes # << <<TOTAL, 0, 0>> >> ELSE TRUE) /\ Call(c) /\ hist' = Append(hist, c)
Small == Len(nodes) <= MaxNodes /\ Len(open) <= MaxDepth /\ clock <= MaxTime
View == <<nodes, open, clock>>
Emit == PrintT("H " \o ToJson(hist'))
\* one entry per path; when every section is closed no entry takes longer than its parent, and all time is somebody's
OnePerPath == \A i, j \in DOMAIN nodes : nodes[i][1] = nodes[j][1] /\ nodes[i][2] = nodes[j][2] => i = j
Nested == open = <<>> => \A k \in DOMAIN nodes : Exclusive(k) >= 0
RECURSIVE All(_)
All(n) == IF n = 0 THEN 0 ELSE Exclusive(n) + All(n - 1)
Accounted == All(Len(nodes)) = clock
=============================================================================
