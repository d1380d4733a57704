----------------------------- MODULE MC_Interp -----------------------------
EXTENDS Interp, TLC, Json
VARIABLE last
S == Lists({0, 1, -3}, 3) \ {<<>>}
K == { <<0>>, <<8, 12>>, <<-4, 4, 8>> }
PairsOf(ks) == { [i \in DOMAIN ks |-> <<ks[i], v[i]>>] : v \in [DOMAIN ks -> {0, 5, -3}] }
DOf(ks, x) == IF x <= ks[1] \/ x >= ks[Len(ks)] THEN 1 ELSE LET k == Before(ks, x) IN ks[k + 1] - ks[k]
RD(xs, ys) == IF Len(xs) = Len(ys) THEN Regress(xs, ys)[3] ELSE 0
Xs == { <<0, 1>>, <<-1, 2, 5>>, <<0, 1, 2, 4>> }
Ys(n) == [1..n -> {0, 3, -2}]
P4 == [1..4 -> {0, 2, -1}]
Calls == { <<"pairs", p, x, DOf(Keys(p), x)>> : p \in UNION { PairsOf(ks) : ks \in K }, x \in -9..16 }
   \cup { <<"vector", s, x>> : s \in S, x \in -3..26 } \cup { <<"far", s, e>> : s \in S, e \in {10, 31, 32, 62, 63, 64, 100} }
   \cup { <<"nopairs">>, <<"novector">> }
   \cup { <<"piecewise", s, a, d, a + x>> : s \in { t \in S : Len(t) >= 2 }, a \in {0, -5}, d \in {1, 4, 6}, x \in 0..12 }
   \cup { <<"poly", p, x>> : p \in Lists({0, 1, -2}, 4) \ Lists({0, 1, -2}, 1), x \in {0, 1, -2, 3} } \cup { <<"line", <<3, -4>>>> }
   \cup { <<"intersect", <<a, b>>, y>> : a \in {0, 3}, b \in {1, -2, 3}, y \in {0, 5} }
   \cup { <<"regress", xs, ys, RD(xs, ys)>> : xs \in Xs, ys \in Ys(2) \cup Ys(3) \cup Ys(4) }
   \cup { <<"regressbad", xs, <<1>>>> : xs \in Xs }
   \cup { <<"regresseven", a, d, ys, RD([k \in DOMAIN ys |-> a + d * (k - 1)], ys)>> : a \in {0, -2}, d \in {1, 3, -2}, ys \in Ys(2) \cup Ys(3) \cup Ys(4) }
   \cup { <<f, fs>> : f \in {"means", "covariance"}, fs \in Lists({ <<1, 2>>, <<0, -3>>, <<4, 0>> }, 3) \ {<<>>} }
   \cup { <<f, p, x>> : f \in {"segment", "alphazero"}, p \in P4, x \in {0, 1, 4, 8} } \cup { <<"alphaends", p>> : p \in { q \in P4 : q[1] # q[2] /\ q[2] # q[3] /\ q[3] # q[4] } }
   \cup { <<"spline", p \o <<5>>, <<0, 2, 5>>, t, IF t >= 2 THEN 3 ELSE 2>> : p \in P4, t \in 0..5 }
   \cup { <<"splinebad", <<1, 2, 3>>, <<0>>>>, <<"splinebad", <<1, 2, 3, 4>>, <<0, 1, 2>>>> } \cup { <<"length", 3>> }
MCInit == Init /\ last = <<>>
MCNext == last = <<>> /\ \E c \in Calls : (IF c[1] = "regress" THEN Len(c[2]) = Len(c[3]) ELSE TRUE) /\ Call(c) /\ last' = c
Emit == PrintT("C " \o ToJson(last'))
\* a spline passes through its points at their times
Through == (last # <<>> /\ last[1] = "spline" /\ last[4] = 2) => Cubic(SubSeq(last[2], 2, 5), 0, 3) * 8 = Cubic(SubSeq(last[2], 1, 4), 2, 2) * 27
\* the residuals of a regression are orthogonal to the line
Normal == (last # <<>> /\ last[1] = "regress") => LET r == Regress(last[2], last[3]) n == Len(last[2]) res1(k) == last[3][k] * r[3] - r[2] - r[1] * last[2][k] IN
            SumOf(n, res1) = 0 /\ SumOf(n, LAMBDA k : res1(k) * last[2][k]) = 0
=============================================================================
