------------------------------- MODULE MC_Hash -------------------------------
EXTENDS Hash, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLE last
S == Lists(Alphabet, MaxLen)
\* the texts the driver hashes at compile time, in its order
Lit == << <<>>, <<97>>, <<97,112,112,101,108>>, <<112,101,101,114>>, <<98,97,110,97,97,110>>, <<90,122,48,57,95,32,126>> >>
Calls == { <<"hash", s>> : s \in S } \cup { <<"parts", s, t>> : s \in Lists(Alphabet, 2), t \in Lists(Alphabet, 2) } \cup { <<"literals", Lit>> }
    \cup { <<"hash", <<b>>>> : b \in 1..127 }
MCInit == Init /\ last = <<>>
MCNext == last = <<>> /\ \E c \in Calls : Call(c) /\ last' = c
Emit == PrintT("C " \o ToJson(last'))
\* known values: "" , "a", "foobar"
ASSUME Fnv(<<>>) = Basis
ASSUME Fnv(<<97>>) = <<140, 236, 1, 134, 76, 220, 99, 175>>
ASSUME Fnv(<<102, 111, 111, 98, 97, 114>>) = <<232, 103, 57, 247, 113, 65, 148, 133>>
InParts == (last # <<>> /\ last[1] = "parts") => Fold(Fnv(last[2]), last[3], 1) = Fnv(last[2] \o last[3])
=============================================================================
