----------------------------- MODULE Stopwatch -----------------------------
(* Timers and stopwatches under a clock. Times are <<seconds, microseconds, *)
(* nanoseconds>> with the last two below 10^6 and 10^3.                     *)
EXTENDS Text
VARIABLES clock, timers, watches, res
vars == <<clock, timers, watches, res>>
Ids == 1..2
M == 1000000
Zero == <<0, 0, 0>>
Norm(s, u, n) == LET n2 == n % 1000 u1 == u + (n \div 1000) u2 == u1 % M IN <<s + (u1 \div M), u2, n2>>
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
Minus(a, b) == Norm(a[1] - b[1], a[2] - b[2], a[3] - b[3])
Init == clock = Zero /\ timers = [i \in Ids |-> <<>>] /\ watches = [i \in Ids |-> <<>>] /\ res = Ok
Keep(r) == res' = r /\ UNCHANGED <<clock, timers, watches>>
Elapsed(i) == Minus(clock, timers[i][1])
Is(i) == timers[i] # <<>>
IsW(i) == watches[i] # <<>>
\* a stopwatch: <<start of the current measure, measures as <<tag, time>> in order of first use>>
Find(ms, tag) == First(ms, LAMBDA m : m[1] = tag)
Add(ms, tag, t) == LET k == Find(ms, tag) IN IF k = 0 THEN Append(ms, <<tag, t>>) ELSE Replace(ms, k, <<tag, Plus(ms[k][2], t)>>)
Whole(t) == t[3] = 0
INTERNAL == <<105, 110, 116, 101, 114, 110, 97, 108>>
\* seconds as a real number: to the microsecond below 10^4 seconds, to the second above
Real(t) == IF t[1] < 10000 THEN <<t[1], t[2]>> ELSE <<t[1], 0>>
Sharp(t) == IF t[1] < 10000 THEN TRUE ELSE t[2] < 999980
Call(c) ==
  \/ c[1] = "advance" /\ clock' = Plus(clock, <<c[2], c[3], c[4]>>) /\ res' = Ok /\ UNCHANGED <<timers, watches>>
  \/ c[1] \in {"timer", "reset"} /\ (c[1] = "reset" => Is(c[2])) /\ timers' = [timers EXCEPT ![c[2]] = <<clock>>] /\ res' = Ok /\ UNCHANGED <<clock, watches>>
  \/ c[1] = "copy" /\ Is(c[2]) /\ timers' = [timers EXCEPT ![c[3]] = timers[c[2]]] /\ res' = Ok /\ UNCHANGED <<clock, watches>>
  \/ c[1] = "ns" /\ Is(c[2]) /\ Keep(OkV(Elapsed(c[2])))
  \/ c[1] = "ticks" /\ Is(c[2]) /\ Keep(OkV(Elapsed(c[2])))
  \/ c[1] = "us" /\ Is(c[2]) /\ Keep(OkV(<<Elapsed(c[2])[1], Elapsed(c[2])[2]>>))
  \/ c[1] = "ms" /\ Is(c[2]) /\ Keep(OkV(<<Elapsed(c[2])[1], Elapsed(c[2])[2] \div 1000>>))
  \/ c[1] \in {"seconds", "minutes", "hours"} /\ Is(c[2]) /\ (Sharp(Elapsed(c[2])) = TRUE) /\ Keep(OkV(Real(Elapsed(c[2]))))
  \/ c[1] = "watch" /\ watches' = [watches EXCEPT ![c[2]] = <<clock, <<>>>>] /\ res' = Ok /\ UNCHANGED <<clock, timers>>
  \/ c[1] = "first" /\ IsW(c[2]) /\ watches' = [watches EXCEPT ![c[2]][1] = clock] /\ res' = Ok /\ UNCHANGED <<clock, timers>>
  \/ c[1] = "measure" /\ IsW(c[2]) /\ watches' = [watches EXCEPT ![c[2]] = <<clock, Add(@[2], c[3], Minus(clock, @[1]))>>] /\ res' = Ok /\ UNCHANGED <<clock, timers>>
  \/ c[1] = "report" /\ IsW(c[2]) /\ (\A k \in DOMAIN watches[c[2]][2] : Whole(watches[c[2]][2][k][2])) = TRUE           \* the clock stands still inside a call: no internal time
        /\ Keep(OkV([k \in DOMAIN watches[c[2]][2] |-> <<watches[c[2]][2][k][1], Upto(watches[c[2]][2][k][2], 2)>>] \o <<<<INTERNAL, <<0, 0>>>>>>))
  \/ c[1] = "accounted" /\ Keep(OkV(<<1, 1, 1, 1>>))      \* with a clock that runs inside the calls too: all time is accounted for, each tag has at least its time, the rest is internal, with at least the time that passes during the call of every measure
Observed == <<>>
-----------------------------------------------------------------------------
\* the measures of a watch that was never restarted add up to the time since its first measure began
RECURSIVE Sum(_)
Sum(ms) == IF ms = <<>> THEN Zero ELSE Plus(ms[1][2], Sum(Tail(ms)))
=============================================================================
