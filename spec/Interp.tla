------------------------------- MODULE Interp -------------------------------
(* Interpolation, polynomials, regression and statistics of channels as     *)
(* rational functions. A call names the denominator d of its result where   *)
(* that is not an integer, and its result is the numerator.                 *)
EXTENDS Text
VARIABLES res
vars == <<res>>
Init == res = Ok
Keys(ps) == [k \in DOMAIN ps |-> ps[k][1]]
Rising(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
\* linear between (a, u) and (b, v): times b - a
Blend(a, u, b, v, x) == u * (b - x) + v * (x - a)
\* the last sample at or before x
Before(s, x) == CHOOSE k \in DOMAIN s : s[k] <= x /\ \A j \in DOMAIN s : s[j] <= x => j <= k
SumSeq(s) == FoldSeq(LAMBDA t, x : t + x, 0, s)
SumOf(n, f(_)) == SumSeq([k \in 1..n |-> f(k)])
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN 1 ELSE x * Power(x, n - 1)
\* the uniform Catmull-Rom cubic through p2 and p3 at x of n between them, times 2 n^3
Cubic(p, x, n) == 2 * p[2] * n * n * n + (p[3] - p[1]) * x * n * n + (2 * p[1] - 5 * p[2] + 4 * p[3] - p[4]) * x * x * n + (3 * p[2] - p[1] - 3 * p[3] + p[4]) * x * x * x
Regress(xs, ys) == LET n == Len(xs) sx == SumSeq(xs) sy == SumSeq(ys)
                       sxx == SumOf(n, LAMBDA k : xs[k] * xs[k]) sxy == SumOf(n, LAMBDA k : xs[k] * ys[k])
                       S == n * sxx - sx * sx T == n * sxy - sx * sy
                   IN <<n * T, sy * S - T * sx, n * S>>              \* slope, offset, denominator
Column(fs, c) == [k \in DOMAIN fs |-> fs[k][c]]
Cov(fs, a, b) == Len(fs) * SumOf(Len(fs), LAMBDA k : fs[k][a] * fs[k][b]) - SumSeq(Column(fs, a)) * SumSeq(Column(fs, b))
Call(c) ==
  \* samples <<position, value>> by rising position; positions in 8ths
  \/ c[1] = "pairs" /\ Len(c[2]) >= 1 /\ Rising(Keys(c[2])) = TRUE
        /\ LET ks == Keys(c[2]) n == Len(ks) x == c[3] IN
           IF x <= ks[1] THEN c[4] = 1 /\ res' = OkV(c[2][1][2])
           ELSE IF x >= ks[n] THEN c[4] = 1 /\ res' = OkV(c[2][n][2])
           ELSE LET k == Before(ks, x) IN c[4] = ks[k + 1] - ks[k] /\ res' = OkV(Blend(ks[k], c[2][k][2], ks[k + 1], c[2][k + 1][2], x))
  \/ c[1] \in {"nopairs", "novector"} /\ res' = Err
  \* samples at 0, 1, 2, ...; position in 8ths, result in 8ths
  \/ c[1] = "vector" /\ Len(c[2]) >= 1
        /\ LET n == Len(c[2]) x == c[3] IN
           res' = OkV(IF x < 0 THEN 8 * c[2][1] ELSE IF x >= 8 * (n - 1) THEN 8 * c[2][n] ELSE LET k == x \div 8 IN Blend(8 * k, c[2][k + 1], 8 * k + 8, c[2][k + 2], x))
  \* a position of 2^c[3], or minus that
  \/ c[1] = "far" /\ Len(c[2]) \in 1..1000 /\ c[3] >= 10 /\ res' = OkV(<<c[2][Len(c[2])], c[2][1]>>)
  \* a function known at evenly spaced knots from c[3] on, c[4] apart (8ths), at c[5]
  \/ c[1] = "piecewise" /\ Len(c[2]) >= 2 /\ c[4] >= 1 /\ c[5] >= c[3] /\ c[5] <= c[3] + c[4] * (Len(c[2]) - 1)
        /\ LET k == Min2((c[5] - c[3]) \div c[4], Len(c[2]) - 2) a == c[3] + k * c[4] IN res' = OkV(Blend(a, c[2][k + 1], a + c[4], c[2][k + 2], c[5]))
  \/ c[1] = "poly" /\ res' = OkV(SumOf(Len(c[2]), LAMBDA k : c[2][k] * Power(c[3], k - 1)))
  \/ c[1] = "line" /\ res' = OkV(<<c[2][1], c[2][2]>>)
  \/ c[1] = "intersect" /\ c[2][2] # 0 /\ res' = OkV(c[3] - c[2][1])                        \* times the slope
  \/ c[1] = "regress" /\ Len(c[2]) = Len(c[3]) /\ (LET r == Regress(c[2], c[3]) IN r[3] > 0 /\ r[3] = c[4] /\ res' = OkV(<<r[1], r[2]>>))
  \/ c[1] = "regressbad" /\ Len(c[2]) # Len(c[3]) /\ res' = Err
  \/ c[1] = "regresseven" /\ Len(c[4]) >= 2 /\ c[3] # 0 /\ (LET r == Regress([k \in DOMAIN c[4] |-> c[2] + c[3] * (k - 1)], c[4]) IN r[3] = c[5] /\ res' = OkV(<<r[1], r[2]>>))
  \/ c[1] = "means" /\ Len(c[2]) >= 1 /\ res' = OkV([a \in DOMAIN c[2][1] |-> SumSeq(Column(c[2], a))])
  \/ c[1] = "covariance" /\ Len(c[2]) >= 1 /\ res' = OkV([a \in DOMAIN c[2][1] |-> [b \in DOMAIN c[2][1] |-> Cov(c[2], a, b)]])
  \* splines: position in 8ths of the segment; result times 2 * 8^3
  \/ c[1] \in {"segment", "alphazero"} /\ res' = OkV(Cubic(c[2], c[3], 8))
  \/ c[1] = "alphaends" /\ res' = OkV(<<c[2][2], c[2][3]>>)
  \* points, times of all but the first and last of them, time
  \/ c[1] = "spline" /\ Len(c[2]) >= 4 /\ Len(c[3]) = Len(c[2]) - 2 /\ Rising(c[3]) = TRUE /\ c[4] >= c[3][1] /\ c[4] <= c[3][Len(c[3])]
        /\ LET k == Min2(Before(c[3], c[4]), Len(c[3]) - 1) IN c[5] = c[3][k + 1] - c[3][k] /\ res' = OkV(Cubic(SubSeq(c[2], k, k + 3), c[4] - c[3][k], c[5]))
  \/ c[1] = "splinebad" /\ (IF Len(c[2]) < 4 THEN TRUE ELSE Len(c[3]) # Len(c[2]) - 2) /\ res' = Err
  \/ c[1] = "length" /\ res' = OkV(c[2] * 8)                    \* of a straight line
Observed == <<>>
=============================================================================
