------------------------------ MODULE FuncTable ------------------------------
(* A function sampled to a file. Numbers are in quarters.                    *)
(*  <<"sample", type, function, first, step, samples>>                       *)
EXTENDS Text
VARIABLES res
vars == <<res>>
Init == res = Ok
Quarter(v) == LET a == Abs(v) IN (IF v < 0 THEN <<45>> ELSE <<>>) \o NumText(a \div 4) \o (CASE a % 4 = 0 -> <<>> [] a % 4 = 1 -> <<46, 50, 53>> [] a % 4 = 2 -> <<46, 53>> [] a % 4 = 3 -> <<46, 55, 53>>)
Apply(f, x) == CASE f = "same" -> x [] f = "fall" -> 4 - (2 * x) [] f = "const" -> 12 [] f = "abs" -> Abs(x)
Line(f, x) == Quarter(x) \o <<TAB>> \o Quarter(Apply(f, x)) \o <<NL>>
Table(f, first, step, n) == Flatten([i \in 1..n |-> Line(f, first + ((i - 1) * step))])
Calls(t, f, first, step, n) == /\ n >= 2
                               /\ t = "int" => (first % 4 = 0 /\ step % 4 = 0)
Call(c) ==
  \/ c[1] = "sample" /\ Calls(c[2], c[3], c[4], c[5], c[6]) = TRUE /\ res' = OkV(Table(c[3], c[4], c[5], c[6]))
  \/ c[1] = "samplec" /\ Calls(c[2], c[3], c[4], c[5], 101) = TRUE /\ res' = OkV(Table(c[3], c[4], c[5], 101))      \* 101 samples unless told otherwise
Observed == <<>>
=============================================================================
