-------------------------- MODULE MC_DebugStorage --------------------------
EXTENDS DebugStorage, TLC, Json
CONSTANTS MaxWrites, MaxLabels
VARIABLES hist, log          \* log: all writes so far
L == { <<97>>, <<98>>, <<99>>, <<100>> }
a1 == <<120, 46, 116>>
MCInit == Init /\ hist = <<>> /\ log = <<>>
Open == IF hist = <<>> THEN TRUE ELSE Last(hist)[1] # "exit"
Do(c) == Call(c) /\ hist' = Append(hist, c) /\ log' = IF c[1] = "write" THEN Append(log, <<c[2], c[3]>>) ELSE log
\* values count up, so every value is told apart; labels in order (others are renamings); the file is set early and late
MCNext == Open /\ \/ Len(log) < MaxWrites /\ \E l \in L : l[1] - 96 <= Min2(MaxLabels, Len(labels) + 1) /\ Do(<<"write", l, 3 * Len(log) - 4>>)
                  \/ Do(<<"exit">>)
                  \/ (IF hist = <<>> THEN TRUE ELSE Last(hist)[1] # "output" /\ Len(hist) <= 3) /\ \E f \in {a1, <<121>>} : Do(<<"output", f>>)
View == <<labels, rows, file, hist>>
Emit == IF Last(hist')[1] = "exit" THEN PrintT("H " \o ToJson(hist')) ELSE TRUE
\* every value written is in the table once, under its label, and each label's values are in order
Values(k) == SelectSeq([r \in DOMAIN rows |-> Cell(rows[r], k)], LAMBDA x : x # <<>>)
Complete == Open => \A k \in DOMAIN labels : Values(k) = [i \in 1..Len(SelectSeq(log, LAMBDA e : e[1] = labels[k])) |-> <<SelectSeq(log, LAMBDA e : e[1] = labels[k])[i][2]>>]
=============================================================================
