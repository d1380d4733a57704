----------------------------- MODULE MC_Quoting -----------------------------
EXTENDS Quoting, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLE last
Strings == Lists(Alphabet, MaxLen)
Calls == { <<"enc", b>> : b \in 0..255 } \cup { <<f, s>> : f \in {"dec", "quoted", "needs", "tryq", "tryunq", "trip"}, s \in Strings }
    \cup { <<f, <<b>>>> : f \in {"quoted", "needs", "tryq", "trip"}, b \in 0..255 }
    \cup { <<"dec", <<BSL, b>>>> : b \in 0..255 }
    \cup { <<"tryunq", <<QUOTE>> \o s \o <<QUOTE>>>> : s \in Strings }
MCInit == Init /\ last = <<>>
MCNext == last = <<>> /\ \E c \in Calls : Call(c) /\ last' = c
Emit == PrintT("C " \o ToJson(last'))
Text1 == IF last # <<>> /\ last[1] # "enc" THEN last[2] ELSE <<>>
Holds == /\ RoundTrip(Text1) /\ Clean(Text1) /\ LeftAlone(Text1) /\ DecodeInside(Text1)
         /\ (last # <<>> /\ last[1] = "enc") => EncodeDecode(last[2])
=============================================================================
