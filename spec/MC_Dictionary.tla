--------------------------- MODULE MC_Dictionary ---------------------------
EXTENDS Dictionary, TLC, Json
CONSTANTS MaxLen
VARIABLE hist
E == {1, 2}
N == { <<97>>, <<65>>, <<>> }
Queries == { <<"name", x>> : x \in {1, 2, 3} } \cup { <<f, s>> : f \in {"elem", "lookup"}, s \in N \cup {<<97, 97>>} } \cup { <<"elemd", s, d>> : s \in N \cup {<<98>>}, d \in {2, 9} } \cup {<<"copy">>}
MCInit == Init /\ hist = <<>>
MCNext == \/ hist = <<>> /\ \E d \in Lists(E \X N, MaxLen), f \in {"new", "make"} : Call(<<f, d>>) /\ hist' = <<<<f, d>>>>
          \/ Len(hist) \in 1..3 /\ \E q \in Queries : Call(q) /\ hist' = Append(hist, q)
View == <<data, Len(hist)>>
Emit == Len(hist') < 2 \/ PrintT("H " \o ToJson(hist'))
=============================================================================
