------------------------------ MODULE Factory ------------------------------
(* two flut::factory objects with arguments (1, 2) and one without (3)      *)
EXTENDS Base
VARIABLES reg,    \* factory -> sequence of <<name, class>>, distinct names
          made,   \* objects created so far
          res
vars == <<reg, made, res>>
Facs == 1..3
Own(k) == k     \* the own name of class k: classes are identified by their unqualified name
Init == reg = [f \in Facs |-> <<>>] /\ made = 0 /\ res = Ok
Find(f, n) == First(reg[f], LAMBDA e : e[1] = n)
Put(f, n, k) == reg' = [reg EXCEPT ![f] = LET i == Find(f, n) IN IF i = 0 THEN Append(@, <<n, k>>) ELSE [@ EXCEPT ![i] = <<n, k>>]]
Args(f, c) == IF f = 3 THEN <<0, <<>>>> ELSE <<c[4], c[5]>>
Call(c) ==
  \/ c[1] = "reg"  /\ Put(c[2], c[4], c[3]) /\ res' = Ok /\ UNCHANGED made
  \/ c[1] = "regd" /\ Put(c[2], Own(c[3]), c[3]) /\ res' = Ok /\ UNCHANGED made
  \/ /\ c[1] \in {"create", "op", "index", "try"} /\ UNCHANGED reg
     /\ LET i == Find(c[2], c[3]) IN
        IF i = 0 THEN res' = (IF c[1] = "try" THEN None ELSE Err) /\ UNCHANGED made
        ELSE res' = OkV(<<reg[c[2]][i][2]>> \o Args(c[2], c)) /\ made' = made + 1
  \/ c[1] = "has"   /\ res' = OkV(B(Find(c[2], c[3]) # 0)) /\ UNCHANGED <<reg, made>>
  \/ c[1] = "empty" /\ res' = OkV(B(reg[c[2]] = <<>>)) /\ UNCHANGED <<reg, made>>
  \/ c[1] = "copy"  /\ reg' = [reg EXCEPT ![c[2]] = reg[c[3]]] /\ res' = Ok /\ UNCHANGED made
  \/ c[1] = "new"   /\ reg' = [reg EXCEPT ![c[2]] = <<>>] /\ res' = Ok /\ UNCHANGED made
Observed == made'
-----------------------------------------------------------------------------
Distinct == \A f \in Facs : \A i, j \in DOMAIN reg[f] : reg[f][i][1] = reg[f][j][1] => i = j
OnlyCreatingCreates == [][ made' # made => Len(res') = 2 /\ reg' = reg ]_vars
Kept == [][ \A f \in Facs : \A i \in DOMAIN reg[f] : reg'[f] # <<>> => \/ \E j \in DOMAIN reg'[f] : reg'[f][j][1] = reg[f][i][1]
                                                                     \/ \E g \in Facs : reg'[f] = reg[g] ]_vars
=============================================================================
