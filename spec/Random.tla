------------------------------- MODULE Random -------------------------------
(* Random number generators. A generator is its seed and the requests made  *)
(* of it since: nothing else may influence its next number. Which number    *)
(* comes out is left open: it is part of the call, and what has once come   *)
(* out for a seed and requests must come out again.                         *)
(* A draw: <<f, g, type, a, b, bits, part, in>>: range or mean/deviation in *)
(* 64ths, the number's bits, its place in the range (in 4096ths of it) or   *)
(* its deviation, and whether it lies in the range.                         *)
EXTENDS Text, TLC
VARIABLES gens, known, res
vars == <<gens, known, res>>
Ids == 0..3                       \* 0: the global generator
Global == <<"global">>            \* its state at the start of the program
Default == <<"default">>
Init == gens = [g \in Ids |-> IF g = 0 THEN <<Global, <<>>>> ELSE <<>>] /\ known = <<>> /\ res = Ok
Is(g) == gens[g] # <<>>
Draws == {"uni", "unit", "norm"}
Kind(c) == <<IF c[1] = "norm" THEN "norm" ELSE "uni", c[3]>>
Request(c) == Append(Kind(c), <<c[4], c[5]>>)
\* what a generator was asked for, without the ranges
Asked(rs) == [k \in DOMAIN rs |-> <<rs[k][1], rs[k][2]>>]
Exact(c) == <<"bits", gens[c[2]], Request(c)>>
Rough(c) == <<"part", gens[c[2]][1], Asked(gens[c[2]][2]), Kind(c)>>
Near(a, b) == a - b \in -2..2
Draw(c) ==
  LET e == Exact(c) r == Rough(c) IN
  /\ c[8] = 1
  /\ (IF e \in DOMAIN known THEN known[e] = c[6] ELSE TRUE)
  /\ (IF r \in DOMAIN known THEN Near(known[r], c[7]) ELSE TRUE)
  /\ known' = known @@ (e :> c[6]) @@ (r :> c[7])
  /\ gens' = [gens EXCEPT ![c[2]] = <<@[1], Append(@[2], Request(c))>>]
  /\ res' = Ok
Call(c) ==
  \* c[3] uniform numbers taken and not looked at
  \/ c[1] = "skip" /\ Is(c[2]) /\ gens' = [gens EXCEPT ![c[2]] = <<@[1], Append(@[2], <<"skip", c[3], <<0, 64>>>>)>>] /\ res' = Ok /\ UNCHANGED known
  \/ c[1] \in {"new", "seed"} /\ (c[1] = "seed" => Is(c[2])) /\ gens' = [gens EXCEPT ![c[2]] = <<c[3], <<>>>>] /\ res' = Ok /\ UNCHANGED known
  \/ c[1] = "default" /\ gens' = [gens EXCEPT ![c[2]] = <<Default, <<>>>>] /\ res' = Ok /\ UNCHANGED known
  \/ c[1] \in {"copy", "assign"} /\ Is(c[2]) /\ (c[1] = "assign" => Is(c[3])) /\ gens' = [gens EXCEPT ![c[3]] = gens[c[2]]] /\ res' = Ok /\ UNCHANGED known
  \/ c[1] \in Draws /\ Is(c[2]) /\ Draw(c)
  \* the global functions
  \/ c[1] = "rand" /\ Draw([c EXCEPT ![1] = "uni"])
  \/ c[1] = "randnorm" /\ Draw([c EXCEPT ![1] = "norm"])
  \* many draws from a fresh generator reach every tenth of the range, none twice as often as it should
  \/ c[1] = "spread" /\ res' = OkV(<<10, 1>>) /\ UNCHANGED <<gens, known>>
Observed == <<>>
=============================================================================
