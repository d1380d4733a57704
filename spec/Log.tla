-------------------------------- MODULE Log --------------------------------
(* Log sinks. A sink receives every message whose level is at least its own *)
(* while it is registered. Levels: 1 trace, 2 debug, 3 info, 4 warning,     *)
(* 5 error, 6 critical, 7 never.                                            *)
EXTENDS Text
VARIABLES sinks,      \* number -> <<>> or <<kind, level, registered>>; kinds: "mem", "stream", "file", "bad" (a file that cannot be written)
          got,        \* number -> what each sink received during the last call
          res
vars == <<sinks, got, res>>
Ids == 1..20
Nothing == [i \in Ids |-> <<>>]
Init == sinks = [i \in Ids |-> <<>>] /\ got = Nothing /\ res = Ok
Is(i) == sinks[i] # <<>>
Kind(i) == sinks[i][1]
Level(i) == sinks[i][2]
On(i) == IF Is(i) THEN sinks[i][3] = 1 ELSE FALSE
Registered == { i \in Ids : On(i) }
Lowest == LET L == { Level(i) : i \in Registered } IN IF L = {} THEN 7 ELSE CHOOSE l \in L : \A m \in L : l <= m
\* what sink i shows for a message: its level and text, or a line
Shown(i, l, t) == CASE Kind(i) = "mem" -> <<<<l, t>>>> [] Kind(i) = "bad" -> <<>> [] OTHER -> t \o <<NL>>
Send(l, t) == got' = [i \in Ids |-> IF On(i) /\ l >= (IF Is(i) THEN Level(i) ELSE 8) THEN Shown(i, l, t) ELSE <<>>] /\ res' = Ok /\ UNCHANGED sinks
Quiet(s, r) == sinks' = s /\ got' = Nothing /\ res' = r
Keep(r) == Quiet(sinks, r)
\* ------------------------------------------------------------------ the text of a message
Part(a) == IF a[1] = "t" THEN a[2] ELSE IntText(a[2])
TextOf(args) == Flatten([i \in DOMAIN args |-> Part(args[i])])
Mixed(s, n) == s \o IntText(n) \o <<99>> \o <<50, 46, 53>> \o <<32, 108, 105, 116>> \o <<49>>      \* text, number, 'c', 2.5, " lit", true
Formatted(s, n, t) == s \o IntText(n) \o <<37>> \o t                                           \* "%s%d%%%s"
Vars(a, b) == <<97, 97, 61>> \o IntText(a) \o <<9, 98, 98, 61>> \o IntText(b)                       \* "aa=1\tbb=2"
Call(c) ==
  \/ c[1] = "create" /\ ~Is(c[2]) /\ Quiet([sinks EXCEPT ![c[2]] = <<c[3], c[4], 1>>], OkV(B(c[3] # "bad")))
  \/ c[1] = "createdef" /\ ~Is(c[2]) /\ Quiet([sinks EXCEPT ![c[2]] = <<"mem", 3, 1>>], OkV(1))        \* the default level is info
  \/ c[1] = "destroy" /\ Is(c[2]) /\ Quiet([sinks EXCEPT ![c[2]] = <<>>], Ok)
  \/ c[1] = "level" /\ Is(c[2]) /\ Quiet([sinks EXCEPT ![c[2]][2] = c[3]], Ok)
  \/ c[1] = "getlevel" /\ Is(c[2]) /\ Keep(OkV(Level(c[2])))
  \/ c[1] = "global" /\ Quiet([i \in Ids |-> IF On(i) THEN Replace(sinks[i], 2, c[2]) ELSE sinks[i]], Ok)
  \/ c[1] = "remove" /\ Is(c[2]) /\ Quiet([sinks EXCEPT ![c[2]][3] = 0], Ok)
  \/ c[1] = "add" /\ Is(c[2]) /\ Quiet([sinks EXCEPT ![c[2]][3] = 1], Ok)                   \* again: still once
  \/ c[1] = "query" /\ (\E r \in (IF Lowest <= 6 THEN {Lowest} ELSE {6, 7}) : Keep(OkV(r)))
  \/ c[1] = "test" /\ (\E r \in (IF Lowest <= 6 THEN {B(c[2] >= Lowest)} ELSE {0, 1}) : Keep(OkV(r)))
  \/ c[1] \in {"message", "string", "stream", "named"} /\ Send(c[2], TextOf(c[3]))
  \/ c[1] \in {"messagef", "vstring", "namedf"} /\ Send(c[2], Formatted(c[3], c[4], c[5]))
  \/ c[1] \in {"formatonly", "namedformat"} /\ Send(c[2], c[3])
  \/ c[1] \in {"mixed", "namedmixed"} /\ Send(c[2], Mixed(c[3], c[4]))
  \/ c[1] = "vars" /\ Send(1, Vars(c[2], c[3]))
Observed == got'
-----------------------------------------------------------------------------
\* a message is never received below a sink's level, nor by a sink that is not registered
Respect == [][ \A i \in Ids : got'[i] # <<>> => On(i) ]_vars
=============================================================================
