------------------------------- MODULE Stats -------------------------------
(* Functions on containers; every call gets the container as a sequence of  *)
(* integers and none may change it.                                         *)
EXTENDS Text
LOCAL T == INSTANCE TLC
VARIABLES res
vars == <<res>>
Init == res = Ok
Sorted(s) == T!SortSeq(s, <)
Sum(s) == FoldSeq(LAMBDA a, x : a + x, 0, s)
Trunc(n, d) == IF n < 0 THEN -((-n) \div d) ELSE n \div d        \* integer division of C++
Least(s) == CHOOSE x \in Range(s) : \A y \in Range(s) : x <= y
Most(s) == CHOOSE x \in Range(s) : \A y \in Range(s) : x >= y
Index(s, x) == First(s, LAMBDA y : y = x) - 1                     \* from zero; -1 when there is none
Matches(s, m, r) == SelectSeq(s, LAMBDA x : x % m = r)
Joined(s) == Flatten([i \in DOMAIN s |-> IF i = 1 THEN IntText(s[i]) ELSE <<TAB>> \o IntText(s[i])]) \o <<NL>>
\* the sum of the two values in the middle
Middle(s) == LET v == Sorted(s) n == Len(s) IN IF n % 2 = 1 THEN 2 * v[(n + 1) \div 2] ELSE v[n \div 2] + v[n \div 2 + 1]
Call(c) ==
  \/ c[1] = "min" /\ Len(c[2]) > 0 /\ res' = OkV(<<Index(c[2], Least(c[2])), Least(c[2])>>)
  \/ c[1] = "max" /\ Len(c[2]) > 0 /\ res' = OkV(<<Index(c[2], Most(c[2])), Most(c[2])>>)
  \/ c[1] = "average" /\ Len(c[2]) > 0 /\ res' = OkV(<<Sum(c[2]), Trunc(Sum(c[2]), Len(c[2]))>>)                \* times the number of elements; of whole numbers
  \/ c[1] = "median" /\ res' = (IF c[2] = <<>> THEN Err ELSE OkV(<<Middle(c[2]), IF Len(c[2]) % 2 = 1 THEN Middle(c[2]) \div 2 ELSE Trunc(Middle(c[2]), 2)>>))
  \/ c[1] = "lowest" /\ c[3] \in 1..Len(c[2]) /\ (LET v == Sum(Upto(Sorted(c[2]), c[3])) IN res' = OkV(<<v, Trunc(v, c[3])>>))
  \/ c[1] = "sorted" /\ res' = OkV(Sorted(c[2]))
  \* a sorting permutation; which one is up to the code: c[3]
  \/ c[1] = "order" /\ Len(c[3]) = Len(c[2]) /\ Range(c[3]) = 0..(Len(c[2]) - 1)
        /\ (\A i \in 1..(Len(c[2]) - 1) : c[2][c[3][i] + 1] <= c[2][c[3][i + 1] + 1]) /\ res' = Ok
  \/ c[1] = "index" /\ res' = OkV(Index(c[2], c[3]))
  \/ c[1] = "back" /\ res' = (IF c[2] = <<>> THEN Err ELSE OkV(Len(c[2]) - 1))
  \/ c[1] = "filter" /\ c[3] > 0 /\ res' = OkV(Matches(c[2], c[3], c[4]))
  \/ c[1] = "firstof" /\ c[3] > 0 /\ res' = OkV(First(c[2], LAMBDA x : x % c[3] = c[4]) - 1)
  \/ c[1] = "print" /\ res' = OkV(Joined(c[2]))
Observed == <<>>
=============================================================================
