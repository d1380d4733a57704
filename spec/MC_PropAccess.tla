--------------------------- MODULE MC_PropAccess ---------------------------
EXTENDS PropAccess, TLC, Json
CONSTANTS Shapes
VARIABLE hist
a == <<97>>
b == <<98>>
v == <<118>>
T1 == << <<>>, << <<a, << v, << <<b, NoNode>> >> >> >>, <<b, Leaf(v)>>, <<a, NoNode>> >> >>
T2 == << v, << <<b, << <<>>, << <<a, << <<>>, << <<b, Leaf(v)>> >> >> >> >> >> >> >> >>
T3 == << <<>>, << <<a, Leaf(v)>>, <<b, << v, << <<a, Leaf(v)>>, <<b, NoNode>> >> >> >> >> >>
Trees == <<NoNode, T1, T2, T3>>
P == Places(tr)
K == {a, b}
Dt == { <<97, 46, 98>>, <<98, 46, 97>>, <<97>>, <<98, 46, 97, 46, 98>> }
Calls == { <<f, p>> : f \in {"value", "iterate", "citerate", "values", "quiet", "count", "copy", "print", "clear"}, p \in P }
   \cup { <<"list", p, d>> : p \in P, d \in 0..1 } \cup { <<"printat", p, d, w>> : p \in P, d \in 0..1, w \in {0, 2} } \cup { <<"eq", p, q>> : p \in P, q \in P }
   \cup { <<f, p, k>> : f \in {"get", "child", "cchild", "cindex", "trychild", "ctrychild", "trychilddef", "goa", "index", "find", "cfind", "haskey", "hasval", "fresh", "select", "selpat"}, p \in P, k \in K }
   \cup { <<f, p, i>> : f \in {"nth", "cnth", "ith", "cith", "key"}, p \in P, i \in 0..2 }
   \cup { <<"getdef", p, k, <<100>>>> : p \in P, k \in K } \cup { <<"any", p, ks>> : p \in P, ks \in { <<>>, <<b, a>>, <<a>> } } \cup { <<"anydef", p, ks, <<100>>>> : p \in P, ks \in { <<>>, <<b, a>> } }
   \cup { <<f, p, k, 46>> : f \in {"getd", "tryd"}, p \in P, k \in Dt }
MCInit == \E s \in Shapes : tr = Trees[s] /\ m = {} /\ res = Ok /\ hist = << <<"load", Trees[s]>> >>
MCNext == \E c \in Calls : Call(c) /\ hist' = Append(hist, c)
View == <<tr, m>>
Emit == PrintT("H " \o ToJson(hist'))
Sane == m \subseteq Places(tr) /\ \A p \in Places(tr) : (Unread(p) = {}) = (Below(p) \subseteq m)
=============================================================================
