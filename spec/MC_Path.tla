------------------------------- MODULE MC_Path -------------------------------
EXTENDS Path, TLC, Json
CONSTANTS MaxLen
VARIABLE hist
S == Lists({97, 47, 92, DOT}, MaxLen)
Args == { <<>>, <<98>>, <<DOT>>, <<47, 98>>, <<98, DOT, 99>> }
Calls == { <<f, a>> : f \in {"ext", "name", "join", "joins", "joineq", "joineqs", "joinc", "joinp", "add", "eq"}, a \in Args }
    \cup { <<f>> : f \in {"rmname", "noext", "noname", "pref", "parent", "copy", "out"} }
MCInit == Init /\ hist = <<>>
MCNext == \/ hist = <<>> /\ \E s \in S : LET c == <<"set", s>> IN Call(c) /\ hist' = <<c>>
          \/ Len(hist) = 1 /\ \E c \in Calls : Call(c) /\ hist' = Append(hist, c)
Emit == PrintT("H " \o ToJson(hist'))
\* replacing the extension or filename keeps everything else
NameOnly == [][ Last(hist')[1] = "name" => StartsWith(p', UptoName(p)) ]_<<p, hist>>
JoinOneSep == [][ (Last(hist')[1] = "join" /\ Last(hist')[2] = <<98>> /\ HasFilename(p)) => (Parent(p') = p /\ Filename(p') = <<98>>) ]_<<p, hist>>
=============================================================================
