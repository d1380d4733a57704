----------------------------- MODULE PropAccess -----------------------------
(* which nodes of a property tree count as accessed, under reads.           *)
(* c = <<operation, place, ...>>                                            *)
EXTENDS Tree
VARIABLES tr,    \* the tree
          m,     \* the places that were accessed since the marks were cleared
          res
vars == <<tr, m, res>>
Init == tr = NoNode /\ m = {} /\ res = Ok
Below(p) == { p \o q : q \in Places(At(tr, p)) }
Kid(p, i) == p \o <<i - 1>>                    \* i counts from 1
Mark(S, r) == m' = m \cup S /\ res' = r /\ UNCHANGED tr
RECURSIVE FirstOfKeys(_, _)
FirstOfKeys(n, ks) == IF ks = <<>> THEN 0 ELSE LET i == FindKey(n, ks[1]) IN IF i # 0 THEN i ELSE FirstOfKeys(n, Tail(ks))
\* a lookup of child i (0: absent) of the node at p that also touches the child
Touch(p, i, r, other) == IF i = 0 THEN Mark({p}, other) ELSE Mark({p, Kid(p, i)}, r)
\* places visited along the parts of a key: <<places, reached or not>>
RECURSIVE Walk(_, _)
Walk(p, ks) == IF ks = <<>> THEN <<<<p>>, TRUE>>
               ELSE LET i == FindKey(At(tr, p), ks[1]) IN
                    IF i = 0 THEN <<<<p>>, FALSE>>
                    ELSE LET w == Walk(Kid(p, i), Tail(ks)) IN <<<<p>> \o w[1], w[2]>>
Unread(p) == Below(p) \ m
Spaces(n) == Fill(n, 32)
\* the listing of what was never read below p
RECURSIVE Listing(_, _, _)
Listing(p, i, d) ==
  IF i > Len(Kids(At(tr, p))) THEN <<>>
  ELSE LET k == Kid(p, i)
           e == Kids(At(tr, p))[i]
           line == Spaces(2 * d) \o e[1] \o (IF k \in m THEN <<>> ELSE (IF Val(e[2]) = <<>> THEN <<>> ELSE <<32, 61, 32>> \o Val(e[2])) \o <<32, 42>>)
       IN (IF Unread(k) = {} THEN <<>> ELSE <<line>>) \o Listing(k, 1, d + 1) \o Listing(p, i + 1, d)
\* the printed text: a line for every node below, its key indented by its depth and padded to the widest one,
\* and its value, unless it is a group without one
RECURSIVE Width(_, _)
Width(n, d) == LET K == Kids(n) W[i \in 0..Len(K)] == IF i = 0 THEN 0 ELSE Max2(W[i - 1], Max2(2 * d + Len(K[i][1]), Width(K[i][2], d + 1))) IN W[Len(K)]
RECURSIVE Printed(_, _, _)
Printed(n, d, w) ==
  Flatten([i \in DOMAIN Kids(n) |->
    LET e == Kids(n)[i] k == Spaces(2 * d) \o e[1] IN
    k \o Spaces(w - Len(k)) \o (IF Val(e[2]) # <<>> \/ Kids(e[2]) = <<>> THEN <<32, 61, 32>> \o Val(e[2]) ELSE <<>>) \o <<10>> \o Printed(e[2], d + 1, w)])
KeyNode(n, i) == IF i = 0 THEN Err ELSE OkV(Val(Child(n, i)))
Read(c) == LET p == c[2] n == At(tr, p) f == c[1] IN
  \/ f = "value"   /\ Mark({p}, OkV(<<Val(n), Val(n), Val(n)>>))                \* get_value, get, get as a node
  \/ f = "get"     /\ LET i == FindKey(n, c[3]) IN Touch(p, i, KeyNode(n, i), Err)
  \/ f = "getdef"  /\ LET i == FindKey(n, c[3]) IN Touch(p, i, KeyNode(n, i), OkV(c[4]))
  \/ f = "any"     /\ LET i == FirstOfKeys(n, c[3]) IN IF c[3] = <<>> THEN Mark({}, Err) ELSE Touch(p, i, KeyNode(n, i), Err)
  \/ f = "anydef"  /\ LET i == FirstOfKeys(n, c[3]) IN IF c[3] = <<>> THEN Mark({}, OkV(c[4])) ELSE Touch(p, i, KeyNode(n, i), OkV(c[4]))
  \/ f \in {"child", "cchild", "cindex"} /\ Mark({p}, IF FindKey(n, c[3]) = 0 THEN Err ELSE OkV(FindKey(n, c[3]) - 1))
  \/ f \in {"nth", "cnth", "ith", "cith"} /\ (IF c[3] < Len(Kids(n)) THEN Mark({p}, OkV(c[3])) ELSE Mark({}, Err))
  \/ f = "key"     /\ (IF c[3] < Len(Kids(n)) THEN Mark({p}, OkV(Kids(n)[c[3] + 1][1])) ELSE Mark({}, Err))
  \/ f \in {"trychild", "ctrychild", "trychilddef"} /\ LET i == FindKey(n, c[3]) IN Touch(p, i, OkV(i - 1), None)
  \/ f \in {"goa", "index"} /\ LET i == FindKey(n, c[3]) IN (IF i = 0 THEN Mark({}, None) ELSE Touch(p, i, OkV(i - 1), None))   \* existing children only
  \/ f = "getd"    /\ LET w == Walk(p, Parts(c[3], c[4])) IN Mark(Range(w[1]), IF w[2] THEN OkV(Val(At(tr, Last(w[1])))) ELSE Err)
  \/ f = "tryd"    /\ LET w == Walk(p, Parts(c[3], c[4])) IN Mark(Range(w[1]), IF w[2] THEN OkV(Last(w[1])) ELSE None)
  \/ f \in {"find", "cfind"} /\ Mark({p}, OkV(IF FindKey(n, c[3]) = 0 THEN Len(Kids(n)) ELSE FindKey(n, c[3]) - 1))
  \/ f = "haskey"  /\ Mark({p}, OkV(B(FindKey(n, c[3]) # 0)))
  \/ f = "hasval"  /\ Mark({p}, OkV(B(FindKey(n, c[3]) # 0 /\ Val(Child(n, FindKey(n, c[3]))) # <<>>)))
  \/ f = "iterate" /\ Mark({p}, OkV(Keys(n)))
  \/ f = "citerate" /\ Mark({p}, OkV(Keys(n)))
  \/ f = "select"  /\ Mark({p}, OkV(Len(SelectKids(n, LAMBDA k : k = c[3]))))
  \/ f = "selpat"  /\ Mark({p}, OkV(Len(SelectKids(n, LAMBDA k : Matches(k, c[3])))))
  \/ f = "values"  /\ Mark({p} \cup { Kid(p, i) : i \in DOMAIN Kids(n) }, OkV([i \in DOMAIN Kids(n) |-> Val(Child(n, i))]))
  \/ f = "quiet"   /\ Mark({}, OkV(<<Len(Kids(n)), B(Val(n) # <<>>), B(n = NoNode), Len(Kids(n)), B(p \in m)>>))   \* size, has_value, empty, end, is_accessed
  \/ f = "eq"      /\ Mark({}, OkV(B(n = At(tr, c[3]))))
  \/ f = "count"   /\ Mark({}, OkV(Cardinality(Unread(p))))
  \/ f = "copy"    /\ Mark({}, OkV(<<CountNodes(n), CountNodes(n)>>))            \* nothing in a copy was accessed
  \/ f = "fresh"   /\ LET N == CountNodes(n) IN Mark({}, OkV(<<1, 1, 1, N, N, 3 + 2 * N, 0, 1>>))   \* nor in a new node; a new child of a node is not, the node is
  \/ f = "print"   /\ Mark(Below(p), OkV(Printed(n, 0, Width(n, 0))))
  \/ f = "printat" /\ Mark(Below(p), OkV(Printed(n, c[3], IF c[4] = 0 THEN Width(n, c[3]) ELSE c[4])))
  \/ f = "list"    /\ Mark(Below(p), OkV(Listing(p, 1, c[3])))
Call(c) ==
  \/ c[1] = "load"  /\ tr' = c[2] /\ m' = {} /\ res' = Ok                       \* and the marks are cleared
  \/ c[1] = "clear" /\ (IF Exists(tr, c[2]) THEN m' = m \ Below(c[2]) /\ res' = Ok ELSE UNCHANGED m /\ res' = None) /\ UNCHANGED tr
  \/ c[1] \notin {"load", "clear"} /\ (IF Exists(tr, c[2]) /\ (c[1] # "eq" \/ Exists(tr, c[3])) THEN Read(c) ELSE Mark({}, None))
\* the marks in document order, and the tree itself (read from a copy)
RECURSIVE Flat(_)
Flat(p) == LET K == Kids(At(tr', p)) F[i \in 0..Len(K)] == IF i = 0 THEN <<B(p \in m')>> ELSE F[i - 1] \o Flat(Kid(p, i)) IN F[Len(K)]
Observed == <<Flat(<<>>), tr'>>
-----------------------------------------------------------------------------
\* reading never unmarks and never marks what it did not visit
OnlyClearingUnmarks == [][ tr' = tr => (m \subseteq m' \/ \E p \in Places(tr) : m' = m \ Below(p)) ]_vars
=============================================================================
