--------------------------- MODULE MC_UniqueFolder ---------------------------
(* The algorithm as the code has it, one system call at a time, is a        *)
(* refinement of the specification; all its interleavings become schedules. *)
EXTENDS UniqueFolder, TLC, Json
CONSTANTS Bases, Maxes, Rivals, Users
VARIABLES hist, pc     \* pc: process -> <<candidate number, phase>>
u == <<117>>
pu == <<112, 47, 117>>
SomeBases == {u, pu}
SomeRivals == {u, <<112>>, u \o <<32, 40, 49, 41>>, pu}
mcvars == <<dirs, files, proc, res, hist, pc>>
HasParent(n) == Slashes(n) # {}
ParentOf(n) == CHOOSE x \in Parents(n) : \A y \in Parents(n) : Len(y) <= Len(x)
Cur(p) == Cand(proc[p][1], pc[p][1])
Go(p, i, ph) == pc' = [pc EXCEPT ![p] = <<i, ph>>]
Stay == res' = OkV(RUNNING) /\ UNCHANGED <<dirs, proc>>
Over(p, r) == res' = OkV(r) /\ proc' = [proc EXCEPT ![p] = <<>>] /\ Go(p, 0, "idle")
NextOne(p) == IF pc[p][1] + 1 < proc[p][2] THEN Stay /\ Go(p, pc[p][1] + 1, "check") ELSE Over(p, FAILED) /\ UNCHANGED dirs
\* the system call process p waits for
Sys(p) ==
  CASE pc[p][2] = "check" -> IF Cur(p) \in Range(dirs) THEN NextOne(p) ELSE Stay /\ Go(p, pc[p][1], IF HasParent(Cur(p)) THEN "pcheck" ELSE "make")
    [] pc[p][2] = "pcheck" -> Stay /\ Go(p, pc[p][1], IF ParentOf(Cur(p)) \in Range(dirs) THEN "make" ELSE "pmake")
    [] pc[p][2] = "pmake" -> dirs' = (IF Taken(dirs, ParentOf(Cur(p))) THEN dirs ELSE With(dirs, ParentOf(Cur(p)))) /\ res' = OkV(RUNNING) /\ UNCHANGED proc /\ Go(p, pc[p][1], "make")
    [] pc[p][2] = "make" -> IF Taken(dirs, Cur(p)) \/ Blocked(Cur(p)) THEN NextOne(p) ELSE dirs' = With(dirs, Cur(p)) /\ Over(p, <<1, Cur(p)>>)
Log(c) == hist' = Append(hist, c)
Started == \E i \in DOMAIN hist : hist[i][1] = "start"
Did(p) == \E i \in DOMAIN hist : hist[i][1] = "start" /\ hist[i][2] = p
MCInit == Init /\ hist = <<>> /\ pc = [p \in Procs |-> <<0, "idle">>]
MCNext == \/ \E p \in Users, b \in Bases, m \in Maxes : ~Did(p) /\ (p = 1 \/ Did(p - 1)) /\ Call(<<"start", p, b, m>>) /\ Go(p, 0, "check") /\ Log(<<"start", p, b, m>>)
          \/ \E p \in Users : Busy(p) /\ Sys(p) /\ UNCHANGED files /\ Log(<<"step", p>>)
          \/ \E r \in Rivals : Free(r) /\ Call(<<"rival", r>>) /\ UNCHANGED pc /\ Log(<<"rival", r>>)
          \/ ~Started /\ files = {} /\ \E r \in {u, <<112>>} : Call(<<"file", r>>) /\ UNCHANGED pc /\ Log(<<"file", r>>)
          \/ \E b \in Bases, m \in {0, 2} : Call(<<"request", b, m>>) /\ UNCHANGED pc /\ Log(<<"request", b, m>>)
Small == Len(dirs) <= 5
DidSet == { p \in Procs : Did(p) }
View == <<dirs, files, proc, pc, DidSet>>
\* every process that is left running is run to its end
RECURSIVE Ends(_)
Ends(p) == IF p = 0 THEN <<>> ELSE Ends(p - 1) \o (IF proc'[p] = <<>> THEN <<>> ELSE <<<<"finish", p>>>>)
Emit == PrintT("H " \o ToJson(hist' \o Ends(3)))
Step(p) == Busy(p) /\ UNCHANGED files /\ Part(p, FALSE)
Refines == [][ \E p \in Procs : Step(p) \/ (hist' # hist /\ \E c \in { hist'[Len(hist')] } : c[1] # "step" /\ Call(c)) ]_<<dirs, files, proc, res, pc>>
=============================================================================
