----------------------------- MODULE MC_Filters -----------------------------
EXTENDS Filters, TLC, Json
CONSTANTS MaxLen
VARIABLE hist
Start == { <<"filter", i, 2, <<3, -1>>, <<-1, 1>>, "d">> : i \in 1..2 } \cup { <<"filter", 1, 1, <<5>>, <<-2>>, "f">> }
     \cup { <<"delta", i, 3, "d">> : i \in 1..2 } \cup { <<"average", i, e, "d">> : i \in 1..2, e \in {0, -8} }
     \cup { <<"delay", 1, 2, 2, 7, "d">>, <<"delay", 2, 3, 1, 7, "f">>, <<"smooth", 1, 2, 2, 5, "f">>, <<"smooth", 2, 3, 4, 0, "d">> }
Use == { <<"in", i, x>> : i \in 1..2, x \in {1, -4} } \cup { <<f, i>> : f \in {"out", "velocity", "reset", "empty", "value", "now"}, i \in 1..2 } \cup { <<"copy", 1, 2>> }
   \cup { <<"change", i, x>> : i \in 1..2, x \in {1, -4} } \cup { <<"add", 1, 5, 2>>, <<"add", 2, -3, 1>>, <<"addone", 1, 4>> } \cup { <<"get", i, d>> : i \in 1..2, d \in 0..9 }
   \cup { <<f, i, v, dt>> : f \in {"sample", "next"}, i \in 1..2, v \in {1, 8}, dt \in {1, 2} }
MCInit == Init /\ hist = <<>>
MCNext == \E c \in Start \cup Use : /\ (IF c \in Start THEN objs[c[2]] = <<>> /\ (c[2] = 2 => objs[1] # <<>>) ELSE TRUE)
                                    /\ (IF c[1] = "copy" THEN objs[2] = <<>> ELSE TRUE)
                                    /\ Call(c) /\ hist' = Append(hist, c)
Small == Len(hist) <= MaxLen
View == objs
Emit == PrintT("H " \o ToJson(hist'))
\* a delay whose input never changes from its initial value never moves; one that was fed a constant for longer than its delay outputs it
Held(o) == LET m == Len(o[5]) - o[2] + 1 IN m >= 1 /\ \A k \in m..Len(o[5]) : o[5][k] = o[5][m]
Settled == \A i \in Slots : Is(i, Delays) => (Held(objs[i]) => Delayed(objs[i]) = objs[i][3] * objs[i][5][Len(objs[i][5])])
Silent == \A i \in Slots : Is(i, Delays) => (Len(objs[i][5]) + 2 <= objs[i][2] => Delayed(objs[i]) = objs[i][3] * objs[i][4] * (IF objs[i][1] = "smooth" THEN objs[i][3] ELSE 1))
=============================================================================
