-------------------------------- MODULE Vec --------------------------------
(* Vectors of three and four integers (in any unit, of any real type).      *)
EXTENDS Text
VARIABLES res
vars == <<res>>
Init == res = Ok
Add(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Sub(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Neg(a) == [i \in DOMAIN a |-> -a[i]]
Scale(s, a) == [i \in DOMAIN a |-> s * a[i]]
Mask(a, b) == [i \in DOMAIN a |-> a[i] * b[i]]
Dot(a, b) == FoldSeq(LAMBDA x, y : x + y, 0, Mask(a, b))
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Unit(n, i, s) == [k \in 1..n |-> IF k = i THEN s ELSE 0]
\* sine and cosine of k quarter turns
Sin4(k) == CASE k % 4 = 0 -> 0 [] k % 4 = 1 -> 1 [] k % 4 = 2 -> 0 [] k % 4 = 3 -> -1
Cos4(k) == Sin4(k + 1)
Words(a) == Flatten([i \in DOMAIN a |-> IF i = 1 THEN IntText(a[i]) ELSE <<32>> \o IntText(a[i])])
Call(c) ==
  \* sum, difference, each also in place
  \/ c[1] = "sum" /\ Len(c[2]) = Len(c[3]) /\ res' = OkV(<<Add(c[2], c[3]), Sub(c[2], c[3])>>)
  \/ c[1] = "neg" /\ res' = OkV(Neg(c[2]))
  \/ c[1] = "scale" /\ res' = OkV(Scale(c[2], c[3]))
  \/ c[1] = "divide" /\ c[2] # 0 /\ res' = OkV(c[3])                              \* c[2] times c[3], divided by c[2]
  \/ c[1] = "mask" /\ Len(c[2]) = 3 /\ res' = OkV(Mask(c[2], c[3]))
  \/ c[1] = "dot" /\ Len(c[2]) = 3 /\ res' = OkV(Dot(c[2], c[3]))
  \/ c[1] = "cross" /\ Len(c[2]) = 3 /\ res' = OkV(Cross(c[2], c[3]))
  \/ c[1] = "length" /\ res' = OkV(<<Dot(c[2], c[2]), B(c[2] = [i \in DOMAIN c[2] |-> 0])>>)           \* squared; is it the null vector
  \/ c[1] = "distance" /\ Len(c[2]) = 3 /\ res' = OkV(Dot(Sub(c[2], c[3]), Sub(c[2], c[3])))         \* squared
  \/ c[1] = "equal" /\ Len(c[2]) = 3 /\ res' = OkV(<<B(c[2] = c[3]), B(c[2] # c[3])>>)
  \* the unit vector times the length; its length times 1000; the null vector stays
  \/ c[1] = "normalize" /\ Len(c[2]) = 3 /\ res' = OkV(<<c[2], IF Dot(c[2], c[2]) = 0 THEN 0 ELSE 1000>>)
  \/ c[1] = "polar" /\ res' = OkV(<<c[2] * Sin4(c[3]) * Sin4(c[4]), c[2] * Cos4(c[3]), c[2] * Sin4(c[3]) * Cos4(c[4])>>)
  \/ c[1] = "unit" /\ c[2] \in 1..c[3] /\ res' = OkV(Unit(c[3], c[2], 1))
  \/ c[1] = "negunit" /\ c[2] \in 1..3 /\ res' = OkV(Unit(3, c[2], -1))
  \/ c[1] = "uniform" /\ res' = OkV(<<c[2], c[2], c[2]>>)
  \/ c[1] = "zero" /\ res' = OkV(Fill(c[2], 0))
  \/ c[1] = "set" /\ Len(c[2]) = 3 /\ res' = OkV(c[3])                             \* by components, by index, by conversion, by iterator
  \/ c[1] = "print" /\ Len(c[2]) = 3 /\ res' = OkV(Words(c[2]))
  \/ c[1] = "read" /\ Len(c[2]) = 3 /\ res' = OkV(c[2])                            \* from the text of print and from property nodes
Observed == <<>>
=============================================================================
