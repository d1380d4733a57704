------------------------------ MODULE MC_Clone ------------------------------
EXTENDS Clone, TLC, Json
CONSTANTS MaxVecs, MaxLen
VARIABLE hist
Ids == 1..MaxVecs
Ks == 1..MaxLen
Calls == { <<"new">> } \cup { <<"push", i, v>> : i \in Ids, v \in {1, 2} } \cup { <<f, i>> : f \in {"clone", "drop"}, i \in Ids }
    \cup { <<"cloneone", i, k>> : i \in Ids, k \in Ks } \cup { <<"assign", i, j>> : i \in Ids, j \in Ids } \cup { <<"write", i, k, 3>> : i \in Ids, k \in Ks }
MCInit == Init /\ hist = <<>>
MCNext == \E c \in Calls : Call(c) /\ hist' = Append(hist, c)
Small == Len(vecs') <= MaxVecs /\ \A i \in DOMAIN vecs' : Len(vecs'[i]) <= MaxLen
View == vecs
Emit == Small /\ PrintT("H " \o ToJson(hist'))
=============================================================================
