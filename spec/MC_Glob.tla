------------------------------- MODULE MC_Glob -------------------------------
EXTENDS Glob, TLC, Json
CONSTANTS MaxText, MaxPat
VARIABLE last
T == Lists({97, 98, 59}, MaxText)
P == Lists({97, 98, STAR, ANY}, MaxPat)
Few == { <<>>, <<97>>, <<97, 98>>, <<98, 97>>, <<98>> }
Calls == { <<"match", t, p>> : t \in T, p \in P }
    \cup { <<f, p \o <<59>> \o q, <<t, u>>>> : f \in {"matcherd", "matcherpn", "matchercd"}, p \in Lists({97, STAR, ANY}, 2), q \in Lists({98, STAR}, 2), t \in Few, u \in Few }
    \cup { <<f, p \o <<44, 124>> \o q, <<44, 124>>, <<t>>>> : f \in {"matcher", "matcherc"}, p \in Lists({97, STAR, ANY}, 2), q \in Lists({98, STAR}, 1), t \in Few }
MCInit == Init /\ last = <<>>
MCNext == last = <<>> /\ \E c \in Calls : Call(c) /\ last' = c
Emit == PrintT("C " \o ToJson(last'))
TwoDefinitionsAgree == (last # <<>> /\ last[1] = "match") => Matches(last[2], last[3]) = Match(last[2], last[3])
=============================================================================
