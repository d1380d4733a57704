---------------------------- MODULE MC_FuncTable ----------------------------
EXTENDS FuncTable, TLC, Json
CONSTANTS Points, MaxN
VARIABLE last
All == { <<"sample", t, f, a, s, n>> : t \in {"float", "double", "int"}, f \in {"same", "fall", "const", "abs"}, a \in { p - 400 : p \in Points }, s \in { p - 400 : p \in Points }, n \in 2..MaxN }
MCInit == Init /\ last = <<>>
MCNext == last = <<>> /\ \E c \in All : Call(c) /\ last' = c
Emit == PrintT("C " \o ToJson(last'))
\* one line per sample; it starts where asked
Lines == last # <<>> => /\ Cardinality({ i \in DOMAIN res[2] : res[2][i] = NL }) = last[6]
                        /\ StartsWith(res[2], Quarter(last[4]))
                        /\ \E i \in DOMAIN res[2] : EndsWith(res[2], Line(last[3], last[4] + ((last[6] - 1) * last[5])))
=============================================================================
