-------------------------------- MODULE Base --------------------------------
(* Vocabulary shared by all specifications.                                *)
(*  A call is a tuple <<name, arg, ...>>.                                  *)
(*  A result is Ok, OkV(v), Err (an exception) or None.                    *)
(*  Text is a sequence of bytes 0..255.                                    *)
EXTENDS Integers, Sequences, FiniteSets

Ok      == <<"ok">>
OkV(v)  == <<"ok", v>>
Err     == <<"err">>
None    == <<"none">>
B(p)    == IF p THEN 1 ELSE 0          \* booleans travel as 0 / 1

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a)     == IF a < 0 THEN -a ELSE a
Range(s)   == { s[i] : i \in DOMAIN s }
Last(s)    == s[Len(s)]
Front(s)   == SubSeq(s, 1, Len(s) - 1)
From(s, n) == SubSeq(s, n, Len(s))     \* tail starting at position n
Upto(s, n) == SubSeq(s, 1, n)
RemoveAt(s, n)    == SubSeq(s, 1, n - 1) \o SubSeq(s, n + 1, Len(s))
InsertAt(s, n, x) == SubSeq(s, 1, n - 1) \o <<x>> \o SubSeq(s, n, Len(s))
Replace(s, n, x)  == [s EXCEPT ![n] = x]
Fill(n, x)        == [i \in 1..n |-> x]

\* least / greatest index satisfying a predicate, 0 when there is none
First(s, P(_)) == LET S == { i \in DOMAIN s : P(s[i]) }
                  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
LastOf(s, P(_)) == LET S == { i \in DOMAIN s : P(s[i]) }
                  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
StartsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
EndsWith(s, t)   == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

\* lists of at most n elements of S
Lists(S, n) == UNION { [1..k -> S] : k \in 0..n }
=============================================================================
