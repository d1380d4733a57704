------------------------------- MODULE Scalar -------------------------------
(* Scalar helpers, bounds, ranges, boxes and angles. Real numbers travel as *)
(* integers (the driver takes them in 64ths as well).                       *)
EXTENDS Text
VARIABLES res
vars == <<res>>
Init == res = Ok
Clamp(v, a, b) == IF v < a THEN a ELSE IF v > b THEN b ELSE v
Sign(v) == IF v >= 0 THEN 1 ELSE -1
\* soft clamp with a margin r on both sides: linear inside, towards the bound outside; times the distance from the bound's mirror
SoftDen(v, a, b, r) == IF v > b - r THEN v - b + 2 * r ELSE IF v < a + r THEN a + 2 * r - v ELSE 1
Soft(v, a, b, r) == IF v > b - r THEN b * SoftDen(v, a, b, r) - r * r ELSE IF v < a + r THEN a * SoftDen(v, a, b, r) + r * r ELSE v
Violation(v, a, b) == IF v < a THEN v - a ELSE IF v > b THEN v - b ELSE 0
Visited(b, e, s) == [k \in 1..((e - b) \div s) |-> b + (k - 1) * s]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
Box(ps) == <<[k \in 1..3 |-> Least({ ps[i][k] : i \in DOMAIN ps })], [k \in 1..3 |-> Most({ ps[i][k] : i \in DOMAIN ps })]>>
\* four times the square of the sine of 30 k degrees, with its sign
Sine(k) == LET m == k % 12 IN CASE m \in {0, 6} -> 0 [] m \in {1, 5} -> 1 [] m \in {2, 4} -> 3 [] m = 3 -> 4 [] m \in {7, 11} -> -1 [] m \in {8, 10} -> -3 [] m = 9 -> -4
Cosine(k) == Sine(k + 3)
IsPower(v) == \E e \in 0..30 : v = 2 ^ e
Call(c) ==
  \/ c[1] \in {"clamp", "boundsclamp"} /\ c[3] <= c[4] /\ res' = OkV(Clamp(c[2], c[3], c[4]))
  \* wrapping: what came out is part of the call
  \/ c[1] = "wrap" /\ c[3] < c[4] /\ c[5] >= c[3] /\ c[5] <= c[4] /\ (c[5] - c[2]) % (c[4] - c[3]) = 0 /\ res' = Ok
  \/ c[1] = "softclamp" /\ c[3] < c[4] /\ (LET r == ((c[4] - c[3]) * c[5]) \div 4 IN SoftDen(c[2], c[3], c[4], r) = c[6] /\ res' = OkV(Soft(c[2], c[3], c[4], r)))
  \/ c[1] = "sign" /\ res' = OkV(Sign(c[2]))
  \/ c[1] = "parity" /\ res' = OkV(<<B(c[2] % 2 = 0), B(c[2] % 2 # 0)>>)
  \/ c[1] = "power" /\ res' = OkV(B(IsPower(c[2])))
  \* 2^c[2] + c[3] in 64 bits: a power of two? even? odd?
  \/ c[1] = "wide" /\ c[2] \in 2..62 /\ c[3] \in -1..1 /\ res' = OkV(<<B(c[3] = 0), B(c[3] = 0), B(c[3] # 0)>>)
  \/ c[1] = "between" /\ res' = OkV(B(c[2] >= c[3] /\ c[2] <= c[4]))
  \/ c[1] = "lower" /\ res' = OkV(IF c[3] < c[2] THEN c[3] ELSE c[2])
  \/ c[1] = "raise" /\ res' = OkV(IF c[3] > c[2] THEN c[3] ELSE c[2])
  \/ c[1] = "powers" /\ res' = OkV(<<c[2] * c[2], c[2] * c[2] * c[2]>>)
  \/ c[1] = "root" /\ res' = OkV(c[2])                       \* the signed root of the signed square
  \/ c[1] = "wave" /\ res' = OkV(IF (c[2] \div 8) % 2 = 0 THEN 1 ELSE -1)             \* at c[2] 8ths
  \/ c[1] = "bounds" /\ c[2] <= c[3] /\ res' = OkV(<<B(c[4] >= c[2] /\ c[4] <= c[3]), c[3] - c[2], Violation(c[4], c[2], c[3]), -c[3], -c[2]>>)
  \/ c[1] = "point" /\ res' = OkV(<<c[2], c[2], 0, 0>>)          \* bounds of one value; no bounds
  \/ c[1] = "range" /\ c[2] <= c[3] /\ res' = OkV(<<Visited(c[2], c[3], 1), c[3] - c[2]>>)
  \/ c[1] = "rangefrom0" /\ c[2] >= 0 /\ res' = OkV(<<Visited(0, c[2], 1), c[2]>>)
  \/ c[1] \in {"steps", "stepsof"} /\ c[4] # 0 /\ (c[3] - c[2]) % (IF c[4] < 0 THEN -c[4] ELSE c[4]) = 0 /\ (IF c[4] > 0 THEN c[2] <= c[3] ELSE c[3] <= c[2])
        /\ res' = OkV(LET n == IF c[4] > 0 THEN (c[3] - c[2]) \div c[4] ELSE (c[2] - c[3]) \div (-c[4]) IN <<[k \in 1..n |-> c[2] + (k - 1) * c[4]], n>>)
  \/ c[1] \in {"box", "boxfrom", "boxes"} /\ Len(c[2]) >= 1 /\ res' = OkV(Box(c[2]))
  \/ c[1] = "degrees" /\ res' = OkV(<<c[2], c[2], c[2], c[2]>>)                             \* there and back between degrees and radians
  \/ c[1] = "angle" /\ c[4] # 0 /\ res' = OkV(<<c[2] + c[3], c[2] - c[3], -c[2], c[2] * c[4], c[2], c[2]>>)
  \/ c[1] = "compare" /\ res' = OkV(<<B(c[2] < c[3]), B(c[2] > c[3]), B(c[2] <= c[3]), B(c[2] >= c[3]), B(c[2] = c[3]), B(c[2] # c[3])>>)
  \/ c[1] = "sines" /\ res' = OkV(<<Sine(c[2]), Cosine(c[2])>>)
Observed == <<>>
=============================================================================
