----------------------------- MODULE CircDeque -----------------------------
(* flut::circular_deque is an ideal double-ended queue                      *)
EXTENDS Base
VARIABLES q,     \* the elements, front first
          low,   \* what the capacity is at least
          res
vars == <<q, low, res>>
Init == q = <<>> /\ low = 0 /\ res = Ok
New(n)       == q' = <<>> /\ low' = n /\ res' = Ok
PushBack(x)  == q' = Append(q, x) /\ low' = Max2(low, Len(q')) /\ res' = Ok
PushFront(x) == q' = <<x>> \o q   /\ low' = Max2(low, Len(q')) /\ res' = Ok
PopBack  == (IF q = <<>> THEN res' = Err /\ UNCHANGED q ELSE res' = Ok /\ q' = Front(q)) /\ UNCHANGED low
PopFront == (IF q = <<>> THEN res' = Err /\ UNCHANGED q ELSE res' = Ok /\ q' = Tail(q)) /\ UNCHANGED low
GetBack  == res' = (IF q = <<>> THEN Err ELSE OkV(Last(q))) /\ UNCHANGED <<q, low>>
GetFront == res' = (IF q = <<>> THEN Err ELSE OkV(q[1])) /\ UNCHANGED <<q, low>>
SetBack(x)  == (IF q = <<>> THEN res' = Err /\ UNCHANGED q ELSE res' = Ok /\ q' = Replace(q, Len(q), x)) /\ UNCHANGED low
SetFront(x) == (IF q = <<>> THEN res' = Err /\ UNCHANGED q ELSE res' = Ok /\ q' = Replace(q, 1, x)) /\ UNCHANGED low
Get(n)    == res' = (IF n < Len(q) THEN OkV(q[n + 1]) ELSE None) /\ UNCHANGED <<q, low>>
Set(n, x) == (IF n < Len(q) THEN res' = Ok /\ q' = Replace(q, n + 1, x) ELSE res' = None /\ UNCHANGED q) /\ UNCHANGED low
Clear     == q' = <<>> /\ res' = Ok /\ UNCHANGED low
Reserve(n) == low' = Max2(low, n) /\ res' = Ok /\ UNCHANGED q
\* size, emptiness, capacity >= size, (full <=> size = capacity), capacity >= n
Capacity(n) == \E b \in {0, 1} : (n <= low => b = 1) /\ res' = OkV(<<Len(q), B(q = <<>>), 1, 1, b>>) /\ UNCHANGED <<q, low>>
\* distance from begin to end, element reached from begin by +n, post-increment
Iter(n)   == res' = (IF n < Len(q) THEN OkV(<<Len(q), q[n + 1], q[1], IF Len(q) > 1 THEN q[2] ELSE 0, q[1], q[1], 1, 0>>) ELSE None) /\ UNCHANGED <<q, low>>
Copy      == res' = Ok /\ UNCHANGED <<q, low>>
Call(c) ==
  \/ c[1] = "new" /\ New(c[2])
  \/ c[1] = "pushb" /\ PushBack(c[2])
  \/ c[1] = "pushf" /\ PushFront(c[2])
  \/ c[1] = "popb" /\ PopBack
  \/ c[1] = "popf" /\ PopFront
  \/ c[1] \in {"back", "cback"} /\ GetBack
  \/ c[1] \in {"front", "cfront"} /\ GetFront
  \/ c[1] = "setb" /\ SetBack(c[2])
  \/ c[1] = "setf" /\ SetFront(c[2])
  \/ c[1] \in {"get", "cget"} /\ Get(c[2])
  \/ c[1] = "set" /\ Set(c[2], c[3])
  \/ c[1] = "clear" /\ Clear
  \/ c[1] = "reserve" /\ Reserve(c[2])
  \/ c[1] = "cap" /\ Capacity(c[2])
  \/ c[1] = "iter" /\ Iter(c[2])
  \/ c[1] = "copy" /\ Copy
Observed == q'
-----------------------------------------------------------------------------
CapacityEnough == low >= Len(q)
=============================================================================
