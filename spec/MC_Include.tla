----------------------------- MODULE MC_Include -----------------------------
EXTENDS Include, TLC, Json
CONSTANTS MaxKids, Rich
VARIABLE last
M == <<109, 46, 112>>                 \* m.p
A == <<97, 46, 112>>                  \* a.p
D == <<100, 47, 98, 46, 120, 109, 108>>       \* d/b.xml
x == <<120>>
y == <<121>>
\* how file g is named from the folder of file f
Name(f, g) == IF f = D THEN (IF g = D THEN <<98, 46, 120, 109, 108>> ELSE <<46, 46, 47>> \o g) ELSE g
Miss == <<122, 47, 113>>
IncN(name, m) == <<DEFAULT, <<<<>>, <<<<FILE, Leaf(name)>>>> \o (IF m = 2 THEN <<>> ELSE <<<<MERGE, Leaf(<<48 + m>>)>>>>)>>>>
Incs(f) == { IncN(Name(f, g), m) : g \in {M, A, D}, m \in {1, 2} }
\* first child / second child of a file's root
K1(f) == { <<x, Leaf(<<49>>)>>, <<x, <<<<>>, <<<<y, Leaf(f)>>, IncN(Name(f, A), 1), IncN(Name(f, D), 2)>>>>>> } \cup Incs(f)
K2(f) == { <<x, Leaf(f)>> } \cup { IncN(Name(f, g), 1) : g \in {A, D} } \cup (IF Rich THEN { <<y, <<<<>>, <<IncN(Name(f, D), 2)>>>>>> } ELSE {})
File(k) == <<<<>>, k>>
Root(f, k) == <<<<114>> \o SubSeq(f, 1, 1), <<<<>>, k>>>>
Main == { File(<<Root(M, <<k, l>>)>>) : k \in K1(M), l \in K2(M) } \cup { File(<<k, <<y, Leaf(<<50>>)>>>>) : k \in Incs(M) } \cup { File(<<<<x, Leaf(<<51>>)>>, k>>) : k \in Incs(M) }
    \cup (IF Rich THEN { File(<<IncN(Miss, 2)>>), File(<<>>), File(<<<<DEFAULT, NoNode>>>>), File(<<Root(M, <<<<DEFAULT, <<<<>>, <<<<x, NoNode>>>>>>>>>>)>>) } ELSE {})
Pairs(f) == IF MaxKids = 1 THEN { <<k>> : k \in K1(f) } ELSE { <<k>> : k \in K1(f) } \cup { <<k, l>> : k \in K1(f), l \in K2(f) }
Second == { File(<<Root(A, k)>>) : k \in Pairs(A) } \cup { File(<<IncN(Name(A, D), m)>>) : m \in {0, 1} } \cup { File(<<>>), File(<<<<x, NoNode>>, <<y, NoNode>>>>) }
Third == { File(<<Root(D, k)>>) : k \in Pairs(D) } \cup { File(<<Root(D, <<<<x, Leaf(<<52>>)>>, <<y, Leaf(<<53>>)>>, IncN(Miss, 2)>>)>>), File(<<<<DEFAULT, IncN(Name(D, A), 1)[2]>>>>) }
MCInit == Init /\ last = <<>>
MCNext == last = <<>> /\ \E m \in Main, a \in Second, d \in Third : \E c \in {<<"load", <<<<M, m>>, <<A, a>>, <<D, d>>>>, M, <<>>>>} : Call(c) /\ last' = c
Emit == PrintT("C " \o ToJson(last'))
\* no directive survives, and nothing that is not an include is lost from the top of the main file
Complete == last = <<>> \/ res = Err \/ ~HasKey(res[2][1], DEFAULT)
Kept == last = <<>> \/ res = Err \/ LET n == last[2][1][2] IN \A i \in DOMAIN Kids(n) : Kids(n)[i][1] # DEFAULT => \E j \in DOMAIN Kids(res[2][1]) : Kids(res[2][1])[j][1] = Kids(n)[i][1]
=============================================================================
