----------------------------- MODULE MC_NumText -----------------------------
EXTENDS NumText, TLC, Json
CONSTANTS Range1, MaxLen
VARIABLE last
Types == {"short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "bool"}
Signed == {"short", "int", "long", "llong"}
Numbers(t) == IF t = "bool" THEN {0, 1} ELSE IF t \in Signed THEN (-Range1)..Range1 ELSE 0..Range1
Limits(t) == { Hi(t) } \cup (IF t \in Signed THEN { <<45>> \o Lo(t) } ELSE {})
Txt == Lists({49, 48, 45, 32, 44, 97}, MaxLen)
RealTxt == { s \in Lists({53, 48, 45, 32, 46, 122}, MaxLen + 1) : ~\E i \in DOMAIN s : s[i] = 46 /\ i + 1 < Len(s) /\ s[i + 1] = 48 }
Calls == UNION { { <<f, t, IntText(n)>> : f \in {"to", "trip", "from", "is"}, n \in Numbers(t) } : t \in Types }
    \cup UNION { { <<f, t, n>> : f \in {"to", "trip", "from", "is"}, n \in Limits(t) } : t \in Types }
    \cup { <<f, t, s>> : f \in {"from", "is"}, t \in {"long", "int", "llong", "short"}, s \in Txt }
    \cup { <<"vecd", s, m>> : s \in Txt, m \in {-1, 0, 1, 2} } \cup { <<"vec", s, m, <<44>>>> : s \in Txt, m \in {-1, 1, 2} }
    \cup { <<"vecw", s, m>> : s \in Txt, m \in {-1, 1, 2} }
    \cup { <<"scan", k, s>> : k \in { <<"i">>, <<"w">>, <<"i", "w">>, <<"w", "i">>, <<"i", "i", "i">>, <<"w", "w", "i">> }, s \in Txt }
    \cup UNION { { <<"vect", t, IntText(n) \o <<32>> \o Hi(t), m>> : n \in {0, 1, Range1}, m \in {-1, 0, 1, 2} } : t \in Types \ {"bool"} }
    \cup UNION { { <<"scant", t, IntText(n) \o <<32>> \o Hi(t) \o r>> : n \in {0, 1, Range1}, r \in { <<>>, <<32>>, <<32, 55>>, <<32, 120>> } } : t \in Types \ {"bool"} }
    \cup { <<"words", s>> : s \in Txt }
RealCalls == { <<f, t, IntText(n)>> : f \in {"rto", "rtrip"}, t \in {"float", "double"}, n \in { 15625 * k : k \in (-70)..70 } \cup { 1000000, -64000000, 999984375 } }
    \cup { <<"rto", "double", IntText(n)>> : n \in {1, -1, 9, 10, -99999, 100000, 123456, -1999999, 2147483647} }
    \cup { <<f, t, s>> : f \in {"rfrom", "ris"}, t \in {"float", "double"}, s \in RealTxt } \cup { <<"rvec", t, s, m>> : t \in {"float", "double"}, s \in RealTxt, m \in {-1, 0, 1, 2} }
    \cup { <<f, IntText(n)>> : f \in {"eto", "efrom"}, n \in {0, 1, 5, -3} }
MCInit == Init /\ last = <<>>
MCNext == last = <<>> /\ \E c \in Calls \cup RealCalls : Call(c) /\ last' = c
Emit == PrintT("C " \o ToJson(last'))
RoundTrip == (last # <<>> /\ last[1] = "to") => FromStr(last[2], last[3]) = OkV(last[3])
RealTrip == (last # <<>> /\ last[1] = "rto") => FromReal(res[2]) = OkV(last[3])
VecBounded == (last # <<>> /\ last[1] \in {"vec", "vecd", "vecw"}) => (last[3] < 0 \/ Len(res[2]) <= last[3])
=============================================================================
