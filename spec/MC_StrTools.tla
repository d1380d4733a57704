----------------------------- MODULE MC_StrTools -----------------------------
EXTENDS StrTools, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLE last
S == Lists(Alphabet, MaxLen)
Short == Lists(Alphabet, 2)
Sets == { <<61>>, <<61, 46>>, <<95, 47, 32>> }
Calls == { <<f, s>> : f \in {"trimd", "trimrd", "kvd", "tidy", "ext", "noext", "folder", "nofolder"}, s \in S }
    \cup { <<f, s, d>> : f \in {"trim", "trimr", "split", "leftof", "rightof", "kv"}, s \in S, d \in Sets }
    \cup { <<"left", s, n>> : s \in Short, n \in -3..3 }
    \cup UNION { { <<"right", s, n>> : n \in (-Len(s))..Len(s) } \cup { <<"mid", s, p, n>> : p \in 0..Len(s), n \in -1..3 } : s \in Short }
    \cup { <<f, s, t>> : f \in {"begins", "ends"}, s \in S, t \in Short }
    \cup { <<"instr", s, t, p>> : s \in Short, t \in Short, p \in 0..3 }
MCInit == Init /\ last = <<>>
MCNext == last = <<>> /\ \E c \in Calls : Call(c) /\ last' = c
Emit == PrintT("C " \o ToJson(last'))
Holds == last # <<>> => LET s == last[2] IN
            /\ last[1] = "split" => SplitLaw(s, Range(last[3]))
            /\ last[1] = "trim" => TrimLaw(s, Range(last[3]))
            /\ last[1] = "ext" => FileLaw(s)
            /\ last[1] = "left" => PartLaw(s)
=============================================================================
