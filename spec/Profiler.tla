------------------------------ MODULE Profiler ------------------------------
(* The profiler under a clock. Time is counted in a unit chosen at reset.   *)
(* nodes: the call tree in order of creation, <<name, parent, total>>;      *)
(* node 1 is the root. open: the sections entered and not yet left, with    *)
(* the time of entry.                                                       *)
EXTENDS Text, TLC
VARIABLES nodes, open, clock, res
vars == <<nodes, open, clock, res>>
TOTAL == <<84, 79, 84, 65, 76>>
Init == nodes = << <<TOTAL, 0, 0>> >> /\ open = <<>> /\ clock = 0 /\ res = Ok
Here == IF open = <<>> THEN 1 ELSE open[Len(open)][1]
Enter(name) ==
  LET k == First(nodes, LAMBDA n : n[1] = name /\ n[2] = Here)
  IN IF k = 0 THEN nodes' = Append(nodes, <<name, Here, 0>>) /\ open' = Append(open, <<Len(nodes) + 1, clock>>)
     ELSE nodes' = nodes /\ open' = Append(open, <<k, clock>>)
Leave == LET o == open[Len(open)] IN
         nodes' = [nodes EXCEPT ![o[1]][3] = @ + clock - o[2]] /\ open' = SubSeq(open, 1, Len(open) - 1)
Total(k) == IF k = 1 THEN clock ELSE nodes[k][3]
Kids(k) == SelectSeq([j \in DOMAIN nodes |-> j], LAMBDA j : nodes[j][2] = k)
Exclusive(k) == Total(k) - FoldSeq(LAMBDA t, j : t + Total(j), 0, Kids(k))
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
\* longest first; equally long ones are shown by name, whatever their order
Before(i, j) == IF Total(i) # Total(j) THEN Total(i) > Total(j) ELSE Less(nodes[i][1], nodes[j][1])
Rank(s) == SortSeq(s, Before)
RECURSIVE Show(_)
Show(k) == LET r == Rank(Kids(k)) IN <<nodes[k][1], Total(k), Exclusive(k), [n \in DOMAIN r |-> Show(r[n])]>>
Call(c) ==
  \/ c[1] = "reset" /\ nodes' = << <<TOTAL, 0, 0>> >> /\ open' = <<>> /\ clock' = 0 /\ res' = Ok      \* c[2]: milliseconds per unit
  \/ c[1] = "advance" /\ clock' = clock + c[2] /\ res' = Ok /\ UNCHANGED <<nodes, open>>
  \/ c[1] \in {"start", "scope"} /\ (Enter(c[2])) /\ res' = Ok /\ UNCHANGED clock
  \/ c[1] = "end" /\ open # <<>> /\ Leave /\ res' = Ok /\ UNCHANGED clock
  \/ c[1] = "report" /\ clock \in 1..9000 /\ res' = OkV(Show(1)) /\ UNCHANGED <<nodes, open, clock>>
Observed == <<>>
=============================================================================
