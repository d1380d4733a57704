------------------------------ MODULE DynArray ------------------------------
(* several flut::dynarray objects                                           *)
EXTENDS Base
VARIABLES a,    \* slot -> sequence of elements
          res
vars == <<a, res>>
Slots == 1..3
Init == a = [i \in Slots |-> <<>>] /\ res = Ok
Put(i, s) == a' = [a EXCEPT ![i] = s] /\ res' = Ok
Move(i, j) == IF i = j THEN UNCHANGED a /\ res' = Ok
              ELSE a' = [a EXCEPT ![i] = a[j], ![j] = <<>>] /\ res' = Ok
In(i, n) == n < Len(a[i])
Call(c) ==
  \/ c[1] = "new"  /\ Put(c[2], Fill(c[3], 0))           \* default elements
  \/ c[1] = "newv" /\ Put(c[2], Fill(c[3], c[4]))
  \/ c[1] = "reset" /\ Put(c[2], <<>>)
  \/ c[1] \in {"set", "atset", "dataset"} /\ (IF In(c[2], c[3]) THEN Put(c[2], Replace(a[c[2]], c[3] + 1, c[4]))
                                    ELSE res' = (IF c[1] = "atset" THEN Err ELSE None) /\ UNCHANGED a)
  \/ c[1] \in {"get", "cget", "at", "cat"} /\ UNCHANGED a
        /\ res' = (IF In(c[2], c[3]) THEN OkV(a[c[2]][c[3] + 1]) ELSE IF c[1] \in {"at", "cat"} THEN Err ELSE None)
  \/ c[1] = "fill" /\ Put(c[2], Fill(Len(a[c[2]]), c[3]))
  \/ c[1] \in {"copy", "copyc"} /\ Put(c[2], a[c[3]])    \* assignment, construction
  \/ c[1] = "move"  /\ Move(c[2], c[3])
  \/ c[1] = "movec" /\ Move(c[2], c[3])
  \/ c[1] = "swap"  /\ a' = [a EXCEPT ![c[2]] = a[c[3]], ![c[3]] = a[c[2]]] /\ res' = Ok
Observed == a'
-----------------------------------------------------------------------------
Independent == [][ \A i, j \in Slots : (i # j /\ a'[i] # a[i] /\ Len(a'[i]) = Len(a[i])) => (a'[j] = a[j] \/ Len(a'[j]) = 0 \/ a'[j] = a[i]) ]_vars
=============================================================================
