-------------------------------- MODULE Clone --------------------------------
(* Vectors of owned objects and copies of them. An object is its value; the  *)
(* number of live objects is the number of elements of all vectors.          *)
EXTENDS Base
VARIABLES vecs, res
vars == <<vecs, res>>
Init == vecs = <<>> /\ res = Ok
Vec(i) == i \in DOMAIN vecs
At(i, k) == i \in DOMAIN vecs /\ k \in DOMAIN vecs[i]
Call(c) ==
  \/ c[1] = "new" /\ vecs' = Append(vecs, <<>>) /\ res' = Ok
  \/ c[1] = "push" /\ Vec(c[2]) = TRUE /\ vecs' = [vecs EXCEPT ![c[2]] = Append(@, c[3])] /\ res' = Ok
  \/ c[1] = "clone" /\ Vec(c[2]) = TRUE /\ vecs' = Append(vecs, vecs[c[2]]) /\ res' = Ok                            \* a copy of a whole vector
  \/ c[1] = "cloneone" /\ At(c[2], c[3]) = TRUE /\ vecs' = [vecs EXCEPT ![c[2]] = Append(@, @[c[3]])] /\ res' = Ok     \* a copy of one object, put at the end
  \/ c[1] = "assign" /\ Vec(c[2]) = TRUE /\ Vec(c[3]) = TRUE /\ vecs' = [vecs EXCEPT ![c[3]] = vecs[c[2]]] /\ res' = Ok   \* copy over another (or the same) vector
  \/ c[1] = "write" /\ At(c[2], c[3]) = TRUE /\ vecs' = [vecs EXCEPT ![c[2]][c[3]] = c[4]] /\ res' = Ok
  \/ c[1] = "drop" /\ Vec(c[2]) = TRUE /\ vecs' = [vecs EXCEPT ![c[2]] = <<>>] /\ res' = Ok
RECURSIVE Total(_)
Total(v) == IF v = <<>> THEN 0 ELSE Len(Head(v)) + Total(Tail(v))
Observed == <<vecs', Total(vecs')>>
-----------------------------------------------------------------------------
\* no call changes more than one vector
Independent == [][ Cardinality({ i \in DOMAIN vecs : vecs'[i] # vecs[i] }) <= 1 ]_vars
=============================================================================
