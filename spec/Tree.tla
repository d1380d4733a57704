-------------------------------- MODULE Tree --------------------------------
(* Property trees as values: a node is <<value, children>>, children a      *)
(* sequence of <<key, node>>. A place in a tree is a sequence of child      *)
(* numbers, counted from 0.                                                 *)
EXTENDS GlobText
Leaf(v) == <<v, <<>>>>
NoNode  == Leaf(<<>>)
Val(n)  == n[1]
Kids(n) == n[2]
Keys(n) == [i \in DOMAIN Kids(n) |-> Kids(n)[i][1]]
RECURSIVE Exists(_, _)
Exists(n, p) == p = <<>> \/ (p[1] < Len(Kids(n)) /\ Exists(Kids(n)[p[1] + 1][2], Tail(p)))
RECURSIVE At(_, _)
At(n, p) == IF p = <<>> THEN n ELSE At(Kids(n)[p[1] + 1][2], Tail(p))
RECURSIVE PutAt(_, _, _)
PutAt(n, p, x) == IF p = <<>> THEN x
                  ELSE LET i == p[1] + 1 k == Kids(n)[i] IN <<Val(n), Replace(Kids(n), i, <<k[1], PutAt(k[2], Tail(p), x)>>)>>
FindKey(n, key) == First(Kids(n), LAMBDA e : e[1] = key)          \* position of the first child with that key, 0 if none
Child(n, i) == Kids(n)[i][2]
AddKid(n, key, x) == <<Val(n), Append(Kids(n), <<key, x>>)>>
SetKid(n, i, x)   == <<Val(n), Replace(Kids(n), i, <<Kids(n)[i][1], x>>)>>
SetKey(n, key, x) == LET i == FindKey(n, key) IN IF i = 0 THEN AddKid(n, key, x) ELSE SetKid(n, i, x)
\* parts of a delimited key: everything up to the first delimiter, then the rest
RECURSIVE Parts(_, _)
Parts(key, d) == LET p == FirstIn(key, {d}, 1) IN
                 IF p > Len(key) THEN <<key>> ELSE <<SubSeq(key, 1, p - 1)>> \o Parts(SubSeq(key, p + 1, Len(key)), d)
RECURSIVE SetParts(_, _, _)
SetParts(n, ks, x) == IF Len(ks) = 1 THEN SetKey(n, ks[1], x)
                      ELSE LET i == FindKey(n, ks[1]) c == IF i = 0 THEN NoNode ELSE Child(n, i)
                           IN SetKey(n, ks[1], SetParts(c, Tail(ks), x))
RECURSIVE FindParts(_, _)
\* the node the parts of a key lead to, as <<node>>, or <<>>
FindParts(n, ks) == IF ks = <<>> THEN <<n>>
                    ELSE LET i == FindKey(n, ks[1]) IN IF i = 0 THEN <<>> ELSE FindParts(Child(n, i), Tail(ks))
RECURSIVE MergeFrom(_, _, _, _)
MergeFrom(n, kids, i, over) == IF i > Len(kids) THEN n
    ELSE LET k == FindKey(n, kids[i][1])
             m == IF k = 0 THEN AddKid(n, kids[i][1], kids[i][2]) ELSE IF over THEN SetKid(n, k, kids[i][2]) ELSE n
         IN MergeFrom(m, kids, i + 1, over)
Merge(n, o, over) == MergeFrom(n, Kids(o), 1, over)
RECURSIVE CountNodes(_)
CountNodes(n) == 1 + (LET K == Kids(n) S[i \in 0..Len(K)] == IF i = 0 THEN 0 ELSE S[i - 1] + CountNodes(K[i][2]) IN S[Len(K)])
RECURSIVE Places(_)
Places(n) == { <<>> } \cup UNION { { <<i - 1>> \o p : p \in Places(Child(n, i)) } : i \in DOMAIN Kids(n) }
SelectKids(n, P(_)) == SelectSeq(Kids(n), LAMBDA e : P(e[1]))
=============================================================================
