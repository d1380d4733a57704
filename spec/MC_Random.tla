------------------------------ MODULE MC_Random ------------------------------
EXTENDS Random, Json
CONSTANTS MaxDraws
VARIABLE hist
Seeds == { <<0, 1>>, <<5, 7>> }
\* the request, then what may come out of it
Requests == { <<"uni", g, "d", 0, 64>> : g \in 0..2 } \cup { <<"uni", 1, "d", 64, 192>>, <<"norm", 1, "d", 0, 64>>, <<"norm", 2, "d", 0, 64>>, <<"rand", 0, "d", 0, 64>>, <<"uni", 2, "f", 0, 64>> }
Plain == { <<"new", g, s>> : g \in 1..2, s \in Seeds } \cup { <<"seed", g, s>> : g \in 0..2, s \in Seeds } \cup { <<"copy", 1, 2>>, <<"assign", 2, 0>> }
MCInit == Init /\ hist = <<>>
MCNext == \/ \E c \in Plain : Call(c) /\ hist' = Append(hist, c)
          \/ \E c \in Requests, v \in {10, 20} : Call(c \o <<v, v, 1>>) /\ hist' = Append(hist, c)
Small == Len(hist) <= MaxDraws
View == <<gens, known>>
Emit == PrintT("H " \o ToJson(hist'))
\* generators with equal histories agree on what comes next
Determined == \A g, h \in Ids : gens[g] = gens[h] /\ Is(g) => \A c \in Requests : c[1] = "uni" =>
                LET x == Exact([c EXCEPT ![2] = g]) y == Exact([c EXCEPT ![2] = h]) IN x = y
=============================================================================
