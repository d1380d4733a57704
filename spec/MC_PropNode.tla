---------------------------- MODULE MC_PropNode ----------------------------
EXTENDS PropNode, TLC, Json
CONSTANTS MaxNodes, MaxDepth
VARIABLE hist
a == <<97>>
b == <<98>>
K == {a, b}
Dup == << <<>>, << <<a, Leaf(<<118>>)>>, <<b, << <<118>>, << <<a, NoNode>> >> >> >>, <<a, NoNode>> >> >>
Pl(n) == { p \in Places(n) : Len(p) <= MaxDepth }
P == Pl(t[1])
Q == { <<1, <<>>>>, <<2, <<>>>>, <<2, <<1>>>>, <<2, <<0>>>> } \cup { <<1, p>> : p \in Pl(t[1]) }
Ups == { <<"set", 1, p, k, v>> : p \in P, k \in K, v \in {<<>>, <<118>>} } \cup { <<"setval", 1, p, <<118>>>> : p \in P }
   \cup { <<"push", 1, p, k>> : p \in P, k \in K } \cup { <<"pushv", 1, p, a, <<118>>>> : p \in P } \cup { <<"clear", 1, p>> : p \in P }
   \cup { <<"erase", 1, p, i>> : p \in P, i \in 0..2 } \cup { <<f, 1, p, k>> : f \in {"goa", "index"}, p \in P, k \in K } \cup { <<"assigns", 1, p, <<118>>>> : p \in P }
   \cup { <<"setdd", 1, p, k, <<118>>>> : p \in P, k \in { <<97, 46, 98>>, <<97, 46>>, <<46>>, <<98, 46, 98, 46, 97>> } } \cup { <<"setd", 1, p, <<97, 47, 97>>, <<118>>, 47>> : p \in P }
Prs == { <<f, 1, p, a, q[1], q[2]>> : f \in {"assign", "setn", "setk", "pushn", "copyp", "eq", "trychilddef"}, p \in P, q \in Q }
   \cup { <<"merge", 1, p, <<>>, 2, q, o>> : p \in P, q \in { <<>>, <<1>> }, o \in {0, 1} } \cup { <<"merge", 1, p, <<>>, 1, p, o>> : p \in P, o \in {0, 1} }
   \cup { <<"insert", 1, p, <<>>, 2, <<>>, i, j, k>> : p \in P, i \in 0..2, j \in {0, 1}, k \in {1, 3} }
Mvs == { <<f, 1, p, b, 2>> : f \in {"massign", "msetn", "mpush", "mctor"}, p \in P }
Rds == { <<f, 1, p, k>> : f \in {"get", "child", "cchild", "cindex", "trychild", "ctrychild", "find", "cfind", "hasval", "haskey", "select"}, p \in P, k \in K }
   \cup { <<f, 1, p, i>> : f \in {"nth", "cnth", "ith", "cith", "key"}, p \in P, i \in 0..2 } \cup { <<f, 1, p>> : f \in {"info", "value", "values"}, p \in P }
   \cup { <<"getdef", 1, p, k, <<100>>>> : p \in P, k \in K } \cup { <<"any", 1, p, <<b, a>>>> : p \in P } \cup { <<"anydef", 1, p, <<b, a>>, <<100>>>> : p \in P }
   \cup { <<f, 1, p, k, 46>> : f \in {"getd", "tryd"}, p \in P, k \in { <<97, 46, 98>>, <<97>>, <<98, 46, 97>> } } \cup { <<"selpat", 1, p, s>> : p \in P, s \in { <<42>>, <<97, 42>>, <<63>> } }
MCInit == t = [i \in Trees |-> IF i = 2 THEN Dup ELSE NoNode] /\ res = Ok /\ hist = << <<"load", 2, Dup>> >>
MCNext == \E c \in Ups \cup Prs \cup Mvs \cup Rds : Call(c) /\ CountNodes(t'[1]) <= MaxNodes /\ t'[2] \in {Dup, NoNode} /\ hist' = Append(hist, c)
\* a tree the moves have emptied is not explored further
Bound == t[2] = Dup
View == t
Emit == PrintT("H " \o ToJson(hist'))
\* laws of the definitions
Laws == /\ \A k \in K, x \in {NoNode, Leaf(<<118>>)} : LET n == SetKey(t[1], k, x) IN FindKey(n, k) # 0 /\ Child(n, FindKey(n, k)) = x /\ SetKey(n, k, x) = n
        /\ \A q \in {t[2], t[1]} : Merge(Merge(t[1], q, FALSE), q, FALSE) = Merge(t[1], q, FALSE)
        /\ \A p \in Places(t[1]) : PutAt(t[1], p, At(t[1], p)) = t[1]
=============================================================================
