---------------------------- MODULE UniqueFolder ----------------------------
(* Requests for a unique folder, made by several processes while folders    *)
(* come into being around them. A step of a process is any part of its      *)
(* request between two points at which others may run; what a step may do   *)
(* to the file system and what a request may return is fixed here, how many *)
(* steps a request takes is not.                                            *)
EXTENDS Text
VARIABLES dirs,       \* all folders, in lexical order
          files,      \* all files
          proc,       \* process -> <<>> when idle, else <<base, max attempts, folder made: <<>> or <<name>> >>
          res
vars == <<dirs, files, proc, res>>
Procs == 1..3
Init == dirs = <<>> /\ files = {} /\ proc = [p \in Procs |-> <<>>] /\ res = Ok
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
With(s, x) == IF x \in Range(s) THEN s ELSE LET k == Cardinality({ i \in DOMAIN s : Less(s[i], x) }) IN InsertAt(s, k + 1, x)
\* ------------------------------------------------------------ names
Cand(base, i) == IF i = 0 THEN base ELSE base \o <<32, 40>> \o NumText(i) \o <<41>>           \* "base", "base (1)", ...
Taken(d, name) == name \in Range(d) \/ name \in files
RECURSIVE LowestFrom(_, _, _, _)
\* least i in i..max-1 whose candidate is free, or max
LowestFrom(d, base, i, max) == IF i >= max THEN max ELSE IF Taken(d, Cand(base, i)) THEN LowestFrom(d, base, i + 1, max) ELSE i
Lowest(d, base, max) == LowestFrom(d, base, 0, max)
Slashes(n) == { i \in DOMAIN n : n[i] = 47 }
Parents(n) == { SubSeq(n, 1, i - 1) : i \in Slashes(n) }
Missing(d, n) == Parents(n) \ Range(d)
Blocked(n) == Parents(n) \cap files # {}                     \* a file is in the way
\* the folders with the shortest k of the missing parents
RECURSIVE WithShortest(_, _, _)
WithShortest(d, S, k) == IF k = 0 \/ S = {} THEN d ELSE LET s == CHOOSE x \in S : \A y \in S : Len(x) <= Len(y) IN WithShortest(With(d, s), S \ {s}, k - 1)
\* ------------------------------------------------------------ requests
Busy(p) == proc[p] # <<>>
\* one part of the request of process p: up to some missing parents and the folder itself come into being
RUNNING == <<0>>
FAILED  == <<2>>
IDLE    == <<3>>
Part(p, mustend) ==
  LET base == proc[p][1] max == proc[p][2] made == proc[p][3] miss == Missing(dirs, base) IN
  \E k \in (IF Blocked(base) \/ max <= 0 THEN {0} ELSE 0..Cardinality(miss)) : \E d1 \in {WithShortest(dirs, miss, k)} :
   \E i \in {Lowest(d1, base, max)} :
    \/ /\ ~mustend /\ dirs' = d1 /\ proc' = proc /\ res' = OkV(RUNNING)
    \/ /\ made = <<>> /\ k = Cardinality(miss) /\ i < max /\ ~Blocked(base)                          \* the folder is made: the lowest that is free
       /\ dirs' = With(d1, Cand(base, i))
       /\ \/ ~mustend /\ proc' = [proc EXCEPT ![p][3] = <<Cand(base, i)>>] /\ res' = OkV(RUNNING)
          \/ proc' = [proc EXCEPT ![p] = <<>>] /\ res' = OkV(<<1, Cand(base, i)>>)
    \/ /\ (made # <<>>) /\ dirs' = d1 /\ k = 0 /\ proc' = [proc EXCEPT ![p] = <<>>] /\ res' = OkV(<<1, IF made = <<>> THEN <<>> ELSE made[1]>>)
    \/ /\ made = <<>> /\ k = 0 /\ (Blocked(base) \/ i >= max) /\ dirs' = dirs /\ proc' = [proc EXCEPT ![p] = <<>>] /\ res' = OkV(FAILED)
Free(name) == ~Taken(dirs, name) /\ Missing(dirs, name) = {} /\ ~Blocked(name)
Call(c) ==
  \/ c[1] = "start" /\ ~Busy(c[2]) /\ proc' = [proc EXCEPT ![c[2]] = <<c[3], c[4], <<>>>>] /\ res' = Ok /\ UNCHANGED <<dirs, files>>     \* c[3] base, c[4] attempts
  \/ c[1] = "step" /\ UNCHANGED files /\ (IF Busy(c[2]) THEN Part(c[2], FALSE) ELSE res' = OkV(IDLE) /\ UNCHANGED <<dirs, proc>>)
  \/ c[1] = "finish" /\ UNCHANGED files /\ (IF Busy(c[2]) THEN Part(c[2], TRUE) ELSE res' = OkV(IDLE) /\ UNCHANGED <<dirs, proc>>)
  \/ c[1] = "rival" /\ res' = OkV(<<B(Free(c[2]))>>) /\ dirs' = (IF Free(c[2]) THEN With(dirs, c[2]) ELSE dirs) /\ UNCHANGED <<files, proc>>
  \/ c[1] = "file" /\ Free(c[2]) /\ files' = files \cup {c[2]} /\ res' = Ok /\ UNCHANGED <<dirs, proc>>
  \/ c[1] \in {"request", "requestdef"} /\ UNCHANGED <<files, proc>> /\              \* a whole request at once; c[3] attempts
     LET base == c[2] max == IF c[1] = "request" THEN c[3] ELSE 9999 d1 == WithShortest(dirs, Missing(dirs, base), Len(base)) i == Lowest(dirs, base, max)
     IN IF i >= max \/ Blocked(base) THEN res' = OkV(FAILED) /\ UNCHANGED dirs
        ELSE res' = OkV(<<1, Cand(base, i)>>) /\ dirs' = With(d1, Cand(base, i))
Observed == dirs'
-----------------------------------------------------------------------------
\* folders made for two requests are never the same
Unique == \A p, q \in Procs : p # q /\ Busy(p) /\ Busy(q) => (proc[p][3] = <<>> \/ proc[p][3] # proc[q][3])
NeverLost == [][ Range(dirs) \subseteq Range(dirs') ]_vars
=============================================================================
