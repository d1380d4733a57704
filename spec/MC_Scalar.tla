----------------------------- MODULE MC_Scalar -----------------------------
EXTENDS Scalar, TLC, Json
CONSTANT N
VARIABLE last
I == -N..N
J == -5..5
P == { <<x, y, z>> : x \in {0, 2}, y \in {-1, 1}, z \in {0, 3} }
Edge == { -2147483647, -1073741824, 2147483647, 1073741824, 1073741823 }
Soften == { <<"softclamp", v, a, a + 4 * n, k, SoftDen(v, a, a + 4 * n, n * k)>> : v \in -12..12, a \in {-4, 0, 1}, n \in 1..2, k \in 0..2 }
Free == { <<f, v, a, b>> : f \in {"clamp", "boundsclamp", "between"}, v \in J, a \in J, b \in J }
   \cup { c \in Soften : c[6] # 0 }
   \cup { <<f, v>> : f \in {"sign", "parity", "power"}, v \in I \cup Edge } \cup { <<"wide", e, d>> : e \in 2..62, d \in -1..1 }
   \cup { <<f, a, b>> : f \in {"lower", "raise", "compare"}, a \in J, b \in J } \cup { <<f, v>> : f \in {"powers", "root", "wave", "degrees", "sines", "point"}, v \in I }
   \cup { <<"bounds", a, b, v>> : a \in J, b \in J, v \in J } \cup { <<"range", a, b>> : a \in J, b \in J } \cup { <<"rangefrom0", n>> : n \in 0..9 }
   \cup { <<f, a, b, s>> : f \in {"steps", "stepsof"}, a \in J, b \in J, s \in -3..3 }
   \cup { <<f, ps>> : f \in {"box", "boxfrom", "boxes"}, ps \in Lists(P, 2) } \cup { <<"angle", a, b, s>> : a \in J, b \in J, s \in {-2, 1, 4} }
Wraps == { <<"wrap", v, a, b>> : v \in I, a \in -3..3, b \in -2..6 }
MCInit == Init /\ last = <<>>
MCNext == last = <<>> /\ ((\E c \in Free : Call(c) /\ last' = c) \/ (\E c \in Wraps, r \in -3..6 : Call(Append(c, r)) /\ last' = c))
Emit == PrintT("C " \o ToJson(last'))
\* clamping is the nearest value in the range; a soft clamp stays in it
Nearest == (last # <<>> /\ last[1] = "clamp") => \A x \in last[3]..last[4] : (Clamp(last[2], last[3], last[4]) - last[2])^2 <= (x - last[2])^2
Soft0 == (last # <<>> /\ last[1] = "softclamp") => LET n == Soft(last[2], last[3], last[4], ((last[4] - last[3]) * last[5]) \div 4) IN n >= last[3] * last[6] /\ n <= last[4] * last[6]
=============================================================================
