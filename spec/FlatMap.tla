------------------------------- MODULE FlatMap -------------------------------
(* flut::flat_map: a map that keeps its entries in order of insertion.      *)
EXTENDS Base
VARIABLES m,      \* sequence of <<key, value>>
          res     \* result of the last call
vars == <<m, res>>

Pos(k)  == First(m, LAMBDA e : e[1] = k)        \* position of a key, 0 when absent
Has(k)  == Pos(k) # 0
Keys    == { m[i][1] : i \in DOMAIN m }

Init == m = <<>> /\ res = Ok

\* m[k] = v
Set(k, v) == /\ res' = Ok
             /\ m' = IF Has(k) THEN Replace(m, Pos(k), <<k, v>>) ELSE Append(m, <<k, v>>)
\* reading m[k] adds a default entry when k is new
Index(k)  == /\ res' = OkV(IF Has(k) THEN m[Pos(k)][2] ELSE 0)
             /\ m' = IF Has(k) THEN m ELSE Append(m, <<k, 0>>)
At(k)     == /\ res' = (IF Has(k) THEN OkV(m[Pos(k)][2]) ELSE Err)
             /\ UNCHANGED m
AtSet(k, v) == /\ res' = (IF Has(k) THEN Ok ELSE Err)
               /\ m' = IF Has(k) THEN Replace(m, Pos(k), <<k, v>>) ELSE m
Find(k)   == /\ res' = (IF Has(k) THEN OkV(<<Pos(k) - 1, m[Pos(k)][2]>>) ELSE None)
             /\ UNCHANGED m
HasKey(k) == res' = OkV(B(Has(k))) /\ UNCHANGED m
Count(k)  == res' = OkV(Cardinality({i \in DOMAIN m : m[i][1] = k})) /\ UNCHANGED m
Size      == res' = OkV(<<Len(m), B(m = <<>>)>>) /\ UNCHANGED m
Ends      == /\ res' = (IF m = <<>> THEN None ELSE OkV(<<m[1][1], m[1][2], Last(m)[1], Last(m)[2]>>))
             /\ UNCHANGED m
Erase(n)  == IF n < Len(m) THEN res' = OkV(n) /\ m' = RemoveAt(m, n + 1)
                           ELSE res' = None /\ UNCHANGED m
Clear     == res' = Ok /\ m' = <<>>
Copy      == res' = Ok /\ UNCHANGED m    \* copy construction and assignment

Call(c) ==
  \/ c[1] = "set"   /\ Set(c[2], c[3])
  \/ c[1] = "index" /\ Index(c[2])
  \/ c[1] \in {"at", "cat", "cindex"} /\ At(c[2])
  \/ c[1] = "atset" /\ AtSet(c[2], c[3])
  \/ c[1] \in {"find", "cfind"} /\ Find(c[2])
  \/ c[1] = "has"   /\ HasKey(c[2])
  \/ c[1] = "count" /\ Count(c[2])
  \/ c[1] = "size"  /\ Size
  \/ c[1] = "ends"  /\ Ends
  \/ c[1] = "erase" /\ Erase(c[2])
  \/ c[1] = "clear" /\ Clear
  \/ c[1] = "copy"  /\ Copy

Observed == m'       \* what the driver reports after a call
-----------------------------------------------------------------------------
OneEntryPerKey == \A i, j \in DOMAIN m : m[i][1] = m[j][1] => i = j
SizeIsKeys     == Len(m) = Cardinality(Keys)
\* an entry that stays keeps its place relative to the others that stay
OrderKept == [][ \A i, j \in DOMAIN m : (i < j /\ \E a, b \in DOMAIN m' : m'[a][1] = m[i][1] /\ m'[b][1] = m[j][1])
                 => \E a, b \in DOMAIN m' : a < b /\ m'[a][1] = m[i][1] /\ m'[b][1] = m[j][1] ]_vars
\* one call touches at most one key, except clear
OneKeyTouched == [][ m' = <<>> \/ Cardinality({ k \in Keys : ~ \E i \in DOMAIN m' : m'[i] = m[Pos(k)] }) <= 1 ]_vars
ErrChangesNothing == [][ res' = Err => UNCHANGED m ]_vars
=============================================================================
