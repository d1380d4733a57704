--------------------------- MODULE MC_SortedVector ---------------------------
EXTENDS SortedVector, TLC, Json
CONSTANTS Keys, MaxIns
VARIABLES hist, tag
MCInit == Init /\ hist = <<>> /\ tag = 0
MCNext == \/ tag < MaxIns /\ \E k \in Keys : LET c == <<"insert", k, tag>> IN Call(c) /\ hist' = Append(hist, c) /\ tag' = tag + 1
          \/ \E c \in { <<f, k>> : f \in {"find", "cfind"}, k \in Keys } \cup { <<"erase", n>> : n \in 0..MaxIns }
                     \cup { <<"erange", 0, 2>>, <<"erange", 1, 2>>, <<"ends">>, <<"size">>, <<"clear">>, <<"copy">> } :
                Call(c) /\ hist' = Append(hist, c) /\ tag' = tag
View == <<v, tag>>
Emit == PrintT("H " \o ToJson(hist'))
=============================================================================
