---------------------------- MODULE SortedVector ----------------------------
(* flut::sorted_vector. Elements are <<key, tag>>; only keys are compared.   *)
EXTENDS Base
VARIABLES v, res
vars == <<v, res>>
Init == v = <<>> /\ res = Ok
\* position of a new element: behind everything not greater
Place(k) == 1 + Cardinality({ i \in DOMAIN v : v[i][1] <= k })
FirstOf(k) == First(v, LAMBDA e : e[1] = k)
Insert(k, t) == res' = OkV(Place(k) - 1) /\ v' = InsertAt(v, Place(k), <<k, t>>)
Find(k) == res' = (IF FirstOf(k) = 0 THEN None ELSE OkV(<<FirstOf(k) - 1, v[FirstOf(k)][2]>>)) /\ UNCHANGED v
Erase(n) == IF n < Len(v) THEN res' = OkV(n) /\ v' = RemoveAt(v, n + 1) ELSE res' = None /\ UNCHANGED v
EraseRange(a, b) == IF a <= b /\ b <= Len(v) THEN res' = OkV(a) /\ v' = SubSeq(v, 1, a) \o SubSeq(v, b + 1, Len(v)) ELSE res' = None /\ UNCHANGED v
Ends == res' = (IF v = <<>> THEN None ELSE OkV(<<v[1], Last(v)>>)) /\ UNCHANGED v
Size == res' = OkV(<<Len(v), B(v = <<>>)>>) /\ UNCHANGED v
Call(c) == \/ c[1] = "insert" /\ Insert(c[2], c[3])
           \/ c[1] \in {"find", "cfind"} /\ Find(c[2])
           \/ c[1] = "erase" /\ Erase(c[2])
           \/ c[1] = "erange" /\ EraseRange(c[2], c[3])
           \/ c[1] = "ends" /\ Ends
           \/ c[1] = "size" /\ Size
           \/ c[1] = "clear" /\ res' = Ok /\ v' = <<>>
           \/ c[1] = "copy" /\ res' = Ok /\ UNCHANGED v
Observed == v'
-----------------------------------------------------------------------------
Sorted == \A i, j \in DOMAIN v : i < j => v[i][1] <= v[j][1]
\* tags grow with time, so equal keys appear in order of insertion
Stable == \A i, j \in DOMAIN v : (i < j /\ v[i][1] = v[j][1]) => v[i][2] < v[j][2]
Kept == [][ Len(v') >= Len(v) => \A i \in DOMAIN v : \E j \in DOMAIN v' : v'[j] = v[i] ]_vars
=============================================================================
