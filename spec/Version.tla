------------------------------- MODULE Version -------------------------------
(* Version numbers <<major, minor, patch, build, postfix>> and their text.  *)
(* Numbers travel as canonical numerals.                                    *)
EXTENDS Text
VARIABLES res
vars == <<res>>
Init == res = Ok
DOT == 46
SP == 32
Text(v) == v[1] \o <<DOT>> \o v[2] \o <<DOT>> \o v[3] \o (IF v[4] = <<48>> THEN <<>> ELSE <<DOT>> \o v[4]) \o (IF v[5] = <<>> THEN <<>> ELSE <<SP>> \o v[5])
IsNumeral(d) == Len(d) >= 1 /\ \A i \in DOMAIN d : IsDigit(d[i])
\* the numbers before the first space, the postfix after it
Numbers(t) == SubSeq(t, 1, FirstIn(t, Space, 1) - 1)
Post(t) == SubSeq(t, FirstIn(t, Space, 1) + 1, Len(t))
RECURSIVE Fields(_)
Fields(s) == LET p == FirstIn(s, {DOT}, 1) IN IF p > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, p - 1)>> \o Fields(SubSeq(s, p + 1, Len(s)))
Valid(t) == LET f == Fields(Numbers(t)) IN
            /\ Len(f) \in 3..4 /\ \A k \in DOMAIN f : IsNumeral(f[k]) /\ LeqDigits(StripZeros(f[k]), <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>)
            /\ \A i \in DOMAIN Post(t) : Post(t)[i] \notin Space
Read(t) == LET f == Fields(Numbers(t)) IN <<StripZeros(f[1]), StripZeros(f[2]), StripZeros(f[3]), IF Len(f) = 4 THEN StripZeros(f[4]) ELSE <<48>>, Post(t)>>
Call(c) ==
  /\ \/ c[1] \in {"make", "stream"} /\ res' = OkV(Text(c[2]))
     \/ c[1] = "make3" /\ c[2][4] = <<48>> /\ c[2][5] = <<>> /\ res' = OkV(Text(c[2]))
     \/ c[1] = "read" /\ (Valid(c[2]) = TRUE) /\ res' = OkV(Read(c[2]))
     \/ c[1] = "again" /\ res' = OkV(c[2])                  \* written and read
Observed == <<>>
=============================================================================
