----------------------------- MODULE MC_DynArray -----------------------------
EXTENDS DynArray, TLC, Json
CONSTANTS MaxN, Active
VARIABLE hist
Calls == { <<"new", i, n>> : i \in Active, n \in 0..MaxN } \cup { <<"newv", i, n, 5>> : i \in Active, n \in 0..MaxN }
    \cup { <<f, i, n, 7>> : f \in {"set", "atset"}, i \in Active, n \in 0..MaxN } \cup { <<f, i, n>> : f \in {"get", "at", "cat"}, i \in Active, n \in 0..MaxN }
    \cup { <<"fill", i, 6>> : i \in Active } \cup { <<"reset", i>> : i \in Active }
    \cup { <<f, i, j>> : f \in {"copy", "copyc", "move", "movec", "swap"}, i \in Active, j \in Active }
MCInit == Init /\ hist = <<>>
MCNext == \E c \in Calls : Call(c) /\ hist' = Append(hist, c)
View == a
Emit == PrintT("H " \o ToJson(hist'))
=============================================================================
