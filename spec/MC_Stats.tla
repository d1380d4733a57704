----------------------------- MODULE MC_Stats -----------------------------
EXTENDS Stats, TLC, Json
CONSTANT N
VARIABLE last
V == {-3, 0, 2, 5}
S == Lists(V, N)
Free == { <<f, s>> : f \in {"min", "max", "average", "median", "sorted", "back", "print"}, s \in S }
   \cup { <<"lowest", s, k>> : s \in S, k \in 1..N } \cup { <<"index", s, x>> : s \in S, x \in {0, 1, 5} }
   \cup { <<f, s, 3, 2>> : f \in {"filter", "firstof"}, s \in S } \cup { <<f, s, 5, 0>> : f \in {"filter", "firstof"}, s \in S }
Perms(n) == { p \in [1..n -> 0..(n - 1)] : Cardinality(Range(p)) = n }
MCInit == Init /\ last = <<>>
MCNext == last = <<>> /\ ((\E c \in Free : Call(c) /\ last' = c) \/ (\E s \in S : (\E p \in Perms(Len(s)) : Call(<<"order", s, p>>)) /\ last' = <<"order", s>>))
Emit == PrintT("C " \o ToJson(last'))
\* the definitions agree with each other
Arg == last[2]
Law == last # <<>> /\ Arg # <<>> =>
   /\ Middle(Arg) >= 2 * Least(Arg) /\ Middle(Arg) <= 2 * Most(Arg)
   /\ Sorted(Arg)[1] = Least(Arg) /\ Last(Sorted(Arg)) = Most(Arg)
   /\ \A x \in Range(Arg) : Cardinality({ i \in DOMAIN Arg : Arg[i] = x }) = Cardinality({ i \in DOMAIN Arg : Sorted(Arg)[i] = x })
   /\ \E x \in Range(Arg) : Cardinality({ i \in DOMAIN Arg : Arg[i] < x }) * 2 <= Len(Arg) /\ Cardinality({ i \in DOMAIN Arg : Arg[i] > x }) * 2 <= Len(Arg)
   /\ Sum(Arg) >= Len(Arg) * Least(Arg) /\ Sum(Arg) <= Len(Arg) * Most(Arg)
=============================================================================
