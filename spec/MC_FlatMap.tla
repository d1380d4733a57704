----------------------------- MODULE MC_FlatMap -----------------------------
EXTENDS FlatMap, TLC, Json
CONSTANTS NK, NV, MaxLen
VARIABLE hist
K == { <<>>, <<97>>, <<97, 98>>, <<98>> }
SomeK == CHOOSE s \in SUBSET K : Cardinality(s) = NK
Calls == { <<"set", k, v>> : k \in SomeK, v \in 1..NV }
     \cup { <<f, k>> : f \in {"index", "at", "cat", "cindex", "find", "cfind", "has", "count"}, k \in SomeK }
     \cup { <<"atset", k, v>> : k \in SomeK, v \in 1..NV }
     \cup { <<"erase", n>> : n \in 0..NK }
     \cup { <<"size">>, <<"ends">>, <<"clear">>, <<"copy">> }
MCInit == Init /\ hist = <<>>
MCNext == \E c \in Calls : Call(c) /\ hist' = Append(hist, c)
View == m
Emit == PrintT("H " \o ToJson(hist'))
=============================================================================
