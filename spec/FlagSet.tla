------------------------------ MODULE FlagSet ------------------------------
(* flut::flag_set over storage of 8, 32 or 64 bits; two sets, to see copies  *)
EXTENDS Base
VARIABLES f,      \* <<set 1, set 2>>
          width, res
vars == <<f, width, res>>
Init == f = <<{}, {}>> /\ width = 32 /\ res = Ok
Put(i, s) == f' = [f EXCEPT ![i] = s] /\ res' = Ok /\ UNCHANGED width
Call(c) ==
  \/ c[1] = "width" /\ width' = c[2] /\ f' = <<{}, {}>> /\ res' = Ok
  \/ c[1] \in {"set", "tset"}    /\ Put(c[2], f[c[2]] \cup {c[3]})
  \/ c[1] \in {"setv", "tsetv"}  /\ Put(c[2], IF c[4] = 1 THEN f[c[2]] \cup {c[3]} ELSE f[c[2]] \ {c[3]})
  \/ c[1] = "tclear"             /\ Put(c[2], f[c[2]] \ {c[3]})
  \/ c[1] = "setl"               /\ Put(c[2], f[c[2]] \cup Range(c[3]))
  \/ c[1] = "clearl"             /\ Put(c[2], f[c[2]] \ Range(c[3]))
  \/ c[1] = "newl"               /\ Put(c[2], Range(c[3]))
  \/ c[1] = "clear"              /\ Put(c[2], {})
  \/ c[1] \in {"copy", "copyc"}  /\ Put(c[2], f[c[3]])
  \/ c[1] = "any" /\ res' = OkV(B(f[c[2]] # {})) /\ UNCHANGED <<f, width>>
\* each flag as seen through get(i), (i) and get<i>(), for both sets, and any()
Observed == LET W == width' S == f' IN
   << [n \in 1..W |-> B((n - 1) \in S[1])], [n \in 1..W |-> B((n - 1) \in S[2])], B(S[1] # {}), B(S[2] # {}) >>
-----------------------------------------------------------------------------
\* one step changes only the set and flags it names
OtherSetKept == [][ width' = width => (f'[1] = f[1] \/ f'[2] = f[2]) ]_vars
=============================================================================
