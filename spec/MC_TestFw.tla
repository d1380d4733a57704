----------------------------- MODULE MC_TestFw -----------------------------
EXTENDS TestFw, TLC, Json
CONSTANTS MaxTests
VARIABLES hist, ghost          \* ghost: results since the last reset of each object
Names == { <<>>, <<97, 32>> }
Calls == { <<"test", i, n, r, m>> : i \in Objs, n \in Names, r \in {0, 1}, m \in Names } \cup { <<"macro", r>> : r \in {0, 1} } \cup { <<"macromsg", r, <<109>>>> : r \in {0, 1} }
    \cup { <<"show", i, b>> : i \in Objs, b \in {0, 1} } \cup { <<f, i>> : f \in {"reset", "report"}, i \in Objs }
Obj(c) == IF c[1] \in {"macro", "macromsg"} THEN 2 ELSE c[2]
Res(c) == IF c[1] \in {"macro", "macromsg"} THEN c[2] ELSE c[4]
MCInit == Init /\ hist = <<>> /\ ghost = [i \in Objs |-> <<>>]
MCNext == \E c \in Calls : Call(c) /\ hist' = Append(hist, c)
   /\ ghost' = IF c[1] = "reset" THEN [ghost EXCEPT ![c[2]] = <<>>] ELSE IF c[1] \in {"test", "macro", "macromsg"} THEN [ghost EXCEPT ![Obj(c)] = Append(@, Res(c))] ELSE ghost
View == fw
Small == \A i \in Objs : fw[i][1] <= MaxTests
Emit == PrintT("H " \o ToJson(hist'))
Count(i, r) == Cardinality({ k \in DOMAIN ghost[i] : ghost[i][k] = r })
Counted == \A i \in Objs : fw[i][1] = Len(ghost[i]) /\ fw[i][2] = Count(i, 1) /\ fw[i][3] = Count(i, 0)
=============================================================================
