------------------------------- MODULE Filters -------------------------------
(* Things that remember: digital filters, deltas, averages and delays, as   *)
(* functions of everything that was put into them.                          *)
EXTENDS Text
VARIABLES objs, res
vars == <<objs, res>>
Slots == 1..4
Init == objs = [i \in Slots |-> <<>>] /\ res = Ok
Is(i, kinds) == objs[i] # <<>> /\ objs[i][1] \in kinds
Keep(r) == res' = r /\ UNCHANGED objs
Put(i, o, r) == objs' = [objs EXCEPT ![i] = o] /\ res' = r
Nth(s, k) == IF k \in DOMAIN s THEN s[k] ELSE 0            \* before the first input everything was zero
\* ------------------------------------------------- filter: <<"filter", b0, b, a, inputs, outputs>>, the latest first
RECURSIVE Dot(_, _, _)
Dot(c, s, k) == IF k > Len(c) THEN 0 ELSE c[k] * Nth(s, k) + Dot(c, s, k + 1)
Output(o, x) == o[2] * x + Dot(o[3], o[5], 1) + Dot(o[4], o[6], 1)
Fed(o, x) == <<o[1], o[2], o[3], o[4], <<x>> \o o[5], <<Output(o, x)>> \o o[6]>>
\* ------------------------------------------------- average: <<"average", sum of weight * value, sum of weights, exponent of the unit of weight>>
\* ------------------------------------------------- delay: <<kind, n, window, initial value, stored samples, time since the last, integral since the last>>
\* a plain delay stores the input at the end of every window, a smooth one the mean of the input over the window (times the window)
Stored(o, k) == IF k <= 0 THEN (IF o[1] = "smooth" THEN o[3] * o[4] ELSE o[4]) ELSE o[5][k]
Fits(o, dt) == LET t == o[6] + dt IN IF o[1] = "smooth" THEN dt \in 1..o[3] ELSE dt >= 1 /\ (t = o[3] \/ 2 * t + dt <= 2 * o[3])
Sampled(o, v, dt) ==
  LET t == o[6] + dt W == o[3] IN
  IF t < W THEN <<o[1], o[2], W, o[4], o[5], t, o[7] + v * dt>>
  ELSE <<o[1], o[2], W, o[4], Append(o[5], IF o[1] = "smooth" THEN o[7] + (W - o[6]) * v ELSE v), t - W, (t - W) * v>>
\* the signal one delay ago, between the stored samples around it (times the window, for a smooth delay twice)
Delayed(o) == LET m == Len(o[5]) - o[2] + 1 IN o[6] * Stored(o, m + 1) + (o[3] - o[6]) * Stored(o, m)
Delays == {"delay", "smooth"}
Call(c) ==
  \/ c[1] = "copy" /\ objs[c[2]] # <<>> /\ Put(c[3], objs[c[2]], Ok)
  \/ c[1] = "filter" /\ Put(c[2], <<"filter", c[3], c[4], c[5], <<>>, <<>>>>, Ok)
  \/ c[1] = "in" /\ Is(c[2], {"filter"}) /\ Put(c[2], Fed(objs[c[2]], c[3]), OkV(Output(objs[c[2]], c[3])))
  \/ c[1] = "out" /\ Is(c[2], {"filter"}) /\ Keep(OkV(Nth(objs[c[2]][6], 1)))
  \/ c[1] = "velocity" /\ Is(c[2], {"filter"}) /\ Len(objs[c[2]][4]) >= 2 /\ Keep(OkV(Nth(objs[c[2]][6], 1) - Nth(objs[c[2]][6], 2)))
  \/ c[1] = "delta" /\ Put(c[2], <<"delta", c[3]>>, Ok)
  \/ c[1] = "change" /\ Is(c[2], {"delta"}) /\ Put(c[2], <<"delta", c[3]>>, OkV(c[3] - objs[c[2]][2]))
  \/ c[1] = "average" /\ Put(c[2], <<"average", 0, 0, c[3]>>, Ok)
  \/ c[1] = "reset" /\ Is(c[2], {"average"}) /\ Put(c[2], <<"average", 0, 0, objs[c[2]][4]>>, Ok)
  \/ c[1] = "add" /\ Is(c[2], {"average"}) /\ c[4] >= 0 /\ Put(c[2], <<"average", objs[c[2]][2] + c[3] * c[4], objs[c[2]][3] + c[4], objs[c[2]][4]>>, Ok)
  \/ c[1] = "addone" /\ Is(c[2], {"average"}) /\ objs[c[2]][4] = 0 /\ Put(c[2], <<"average", objs[c[2]][2] + c[3], objs[c[2]][3] + 1, 0>>, Ok)
  \/ c[1] = "get" /\ Is(c[2], {"average"}) /\ c[3] = objs[c[2]][3] /\ Keep(OkV(objs[c[2]][2]))     \* the mean times the sum of the weights
  \/ c[1] = "empty" /\ Is(c[2], {"average"}) /\ Keep(OkV(B(objs[c[2]][3] = 0)))
  \/ c[1] \in Delays /\ Put(c[2], <<c[1], c[3], c[4], c[5], <<>>, 0, 0>>, Ok)
  \/ c[1] = "sample" /\ Is(c[2], Delays) /\ (Fits(objs[c[2]], c[4]) = TRUE) /\ Put(c[2], Sampled(objs[c[2]], c[3], c[4]), Ok)
  \/ c[1] = "next" /\ Is(c[2], Delays) /\ (Fits(objs[c[2]], c[4]) = TRUE) /\ Put(c[2], Sampled(objs[c[2]], c[3], c[4]), OkV(Delayed(Sampled(objs[c[2]], c[3], c[4]))))
  \/ c[1] \in {"value", "now"} /\ Is(c[2], Delays) /\ Keep(OkV(Delayed(objs[c[2]])))
  \* a low-pass filter: gain at zero, at half the sampling rate, power at the cutoff (10000ths), and the Butterworth curve in between
  \/ c[1] = "lowpass" /\ Keep(OkV(<<10000, 0, 5000, 1>>))
Observed == <<>>
=============================================================================
