----------------------------- MODULE MC_Memoize -----------------------------
EXTENDS Memoize, TLC, Json
CONSTANTS MaxLog
VARIABLE hist
Args == (1 :> { <<1, 2>>, <<2, 1>> }) @@ (2 :> { <<1, 2>> }) @@ (3 :> { <<<<97>>>>, <<<<>>>> }) @@ (5 :> { <<>> }) @@ (6 :> { <<<<97>>, <<98>>>>, <<<<97, 98>>, <<>>>>} ) @@ (8 :> { <<<<97>>>> })
Calls == UNION { { <<"call", i, a>> : a \in Args[i] } : i \in DOMAIN Args } \cup { <<"arm", 1>>, <<"copy", 2, 1>>, <<"copy", 1, 2>>, <<"reset", 1>> } \cup { <<"fib", 4>> }
MCInit == Init /\ hist = <<>>
MCNext == \E c \in Calls : Call(c) /\ Len(log') <= MaxLog /\ hist' = Append(hist, c)
View == <<mem, armed, next, fib>>
Emit == PrintT("H " \o ToJson(hist'))
=============================================================================
