------------------------------- MODULE MC_Ini -------------------------------
EXTENDS Ini, TLC, Json
CONSTANTS MaxLines, LineSet, ValLen
VARIABLE hist
a == <<97>>
AllLines == << <<97, 61, 49>>, <<98, 32, 61, 32, 50, 32>>, <<97, 61>>, <<91, 103, 93>>, <<32, 91, 104, 32, 93, 32>>, <<35, 97, 61, 51>>, <<32, 35>>, <<>>, <<32, 9>>, <<97>>, <<91, 93>>, <<97, 61, 98, 61, 99>>, <<61, 120>>, <<91, 97, 61, 93>>, <<91, 120>>, <<97, 9, 61, 35, 49>> >>
L == { AllLines[i] : i \in LineSet }
Texts == { s \in Lists({97, 32, 35, 61, 91, 93, 34, 59, 37, 92, 255}, ValLen) : Line(s) }
Trees == { <<<<>>, <<<<a, Leaf(v)>>, <<<<98>>, Leaf(<<49>>)>>, <<<<103>>, <<<<>>, <<<<a, Leaf(w)>>>>>>>>>>>> : v \in Texts \ {<<>>}, w \in { <<>>, <<120>> } }
    \cup { <<<<>>, <<<<a, <<<<>>, <<<<a, Leaf(v)>>, <<<<98>>, NoNode>>>>>>>>, <<a, <<<<>>, <<<<a, Leaf(v)>>>>>>>>>>>> : v \in Texts }
    \cup { <<<<>>, <<<<k, Leaf(<<49>>)>>, <<k, <<<<>>, <<<<k, NoNode>>>>>>>>>>>> : k \in { s \in Texts : KeyOk(s) } }
    \cup { <<<<>>, <<<<k, <<<<>>, <<<<a, NoNode>>>>>>>>>>>> : k \in Texts \ {<<>>} } \cup { NoNode }
Some == { NoNode, <<<<>>, <<<<a, Leaf(<<49>>)>>>>>>, <<<<>>, <<<<a, <<<<>>, <<<<a, Leaf(<<49>>)>>, <<<<98>>, NoNode>>>>>>>>>>>> }
MCInit == Init /\ hist = <<>>
Plain == IF hist = <<>> THEN TRUE ELSE hist[1][1] \notin {"trip", "lines"}
MCNext == \/ Plain /\ \E i \in Names : \E c \in { <<"load", i>> } \cup { <<"save", i, t>> : t \in Some } : Call(c) /\ hist' = Append(hist, c)
          \/ hist = <<>> /\ \E t \in Trees : Call(<<"trip", t>>) /\ hist' = <<<<"trip", t>>>>
          \/ hist = <<>> /\ \E s \in Lists(L, MaxLines), e \in {1, 2} : Call(<<"lines", s, e>>) /\ hist' = <<<<"lines", s, e>>>>
View == <<files, IF hist # <<>> /\ hist[1][1] \in {"trip", "lines"} THEN hist ELSE <<>>>>
Emit == PrintT("H " \o ToJson(hist'))
\* comment and blank lines have no effect, wherever they are
Neutral == \A s \in Lists({<<97, 61, 49>>, <<91, 103, 93>>, <<98, 61, 50>>}, 3), p \in 0..3, x \in { <<>>, <<35, 61>>, <<32, 35, 91, 93>> } :
             p <= Len(s) => Loaded(Upto(s, p) \o <<x>> \o From(s, p + 1)) = Loaded(s)
ASSUME Neutral
\* what is written reads back
WriteLines(n) == Flatten([i \in DOMAIN Kids(n) |-> LET k == Kids(n)[i] IN
                   IF Kids(k[2]) = <<>> THEN <<k[1] \o <<61>> \o Val(k[2])>>
                   ELSE << <<91>> \o k[1] \o <<93>> >> \o [j \in DOMAIN Kids(k[2]) |-> Kids(k[2])[j][1] \o <<61>> \o Val(Kids(k[2])[j][2])]])
ASSUME \A t \in Trees : Writable(t) => Loaded(WriteLines(t)) = OkV(t)
=============================================================================
