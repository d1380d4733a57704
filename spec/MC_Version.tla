----------------------------- MODULE MC_Version -----------------------------
EXTENDS Version, TLC, Json
VARIABLE last
N == { <<48>>, <<49>>, <<49, 50>>, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>> }
P == { <<>>, <<97>>, <<46>>, <<46, 49>>, <<48, 49>>, <<45, 114, 99>>, <<255>> }
V == { <<a, b, d, e, p>> : a \in N, b \in N, d \in N, e \in N, p \in P }
Calls == { <<f, v>> : f \in {"make", "stream", "again"}, v \in V } \cup { <<"make3", v>> : v \in V } \cup { <<"read", Text(v)>> : v \in V }
   \cup { <<"read", <<48, 49, 46, 48, 46, 48, 48, 55, 46, 48>> \o x>> : x \in { <<>>, <<32>>, <<32, 97>>, <<9, 98>> } }
MCInit == Init /\ last = <<>>
MCNext == last = <<>> /\ \E c \in Calls : Call(c) /\ last' = c
Emit == PrintT("C " \o ToJson(last'))
RoundTrip == (last # <<>> /\ last[1] = "again") => Valid(Text(last[2])) /\ Read(Text(last[2])) = last[2]
=============================================================================
