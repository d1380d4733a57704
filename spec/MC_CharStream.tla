---------------------------- MODULE MC_CharStream ----------------------------
EXTENDS CharStream, TLC, Json
CONSTANTS Alphabet, MaxLen, MaxCalls
VARIABLES hist
Delims == { <<32, 10>>, <<59, 10>> }
Reads == { <<"token", <<61, 123>>, <<34, 39>>>>, <<"token", <<>>, <<34>>>>, <<"tokens", <<61>>, <<34>>>>,
           <<"line">>, <<"word">>, <<"int">>, <<"double">>, <<"getc">>, <<"peekc">> }
MCInit == Init /\ hist = <<>>
MCNext == \/ hist = <<>> /\ \E t \in Lists(Alphabet, MaxLen), d \in Delims : LET c == <<"new", t, d>> IN Call(c) /\ hist' = <<c>>
          \/ hist # <<>> /\ Len(hist) <= MaxCalls /\ \E c \in Reads : Call(c) /\ hist' = Append(hist, c)
View == <<text, delim, pos, fail, hist = <<>>>>
Emit == PrintT("H " \o ToJson(hist'))
\* a read other than looking ahead, on a good stream, moves on or fails
MovesOn == [][ (Good /\ hist # <<>> /\ Last(hist')[1] # "peekc") => (pos' > pos \/ fail') ]_<<vars, hist>>
StaysBad == [][ (fail /\ hist # <<>>) => fail' ]_<<vars, hist>>
\* what was read as a token and what follows it are exactly the text: nothing is skipped but delimiters
NothingLost == [][ (Good /\ hist # <<>> /\ Last(hist')[1] = "token" /\ ~\E i \in pos..(pos' - 1) : text[i] \in {34, 39, 92})
                   => \E e \in pos..pos' : res'[2] = SubSeq(text, pos, e - 1) /\ \A i \in e..(pos' - 1) : text[i] \in delim ]_<<vars, hist>>
=============================================================================
