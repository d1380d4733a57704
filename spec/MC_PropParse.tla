---------------------------- MODULE MC_PropParse ----------------------------
EXTENDS PropParse, TLC, Json
CONSTANTS Skeletons, Wide
VARIABLE last
k(x) == <<"k", 0, x>>
v(x) == <<"v", 0, x>>
a == <<97>>
E == <<"=">>
O == <<"{">>
C == <<"}">>
Skel == << <<>>, << k(a), E, v(<<49>>) >>, << k(a), O, C >>, << k(a), E, v(<<49>>), k(<<98>>), E, v(<<50>>) >>,
           << k(a), O, k(<<98>>), E, v(<<49>>), C >>, << k(a), E, v(<<49>>), O, k(<<98>>), E, v(<<50>>), C, k(<<99>>), E, v(<<51>>) >>,
           << k(a), O, k(<<98>>), O, C, k(a), E, v(<<49>>), C, k(a), O, C >>,
           << k(a), E, <<"v", 1, <<>>>>, O, k(<<98>>), E, v(<<49>>), C, k(a), E, <<"v", 2, <<>>>>, O, C >> >>
Vals == { <<>>, <<118>>, <<118, 32, 119>>, <<61>>, <<37, 120>>, <<123>>, <<125, 59>>, <<39>>, <<34>>, <<92>>, <<92, 110>>, <<10>> \o <<118>>, <<97, 10, 98>>, <<97, 9, 98>>, <<97, 39, 98>>, <<1>>, <<200>>, <<46, 46, 47>>, <<97, 61, 98>> }
KeyTexts == { a, <<97, 32, 98>>, <<97, 61>>, <<98, 37>>, <<97, 34>>, <<97, 39, 98>>, <<97, 92, 110>>, <<99, 59, 100>>, <<97, 10, 98>> }
Layouts == { <<>>, <<32>>, <<9>>, <<10>>, <<13, 10>>, <<13>>, <<12>>, <<11>>, <<32, 10, 10, 32>>, <<37, 32, 120, 10>>, <<37, 10>>, <<37, 123, 34, 10, 9>>, <<10, 37, 37, 61, 13, 10>>, <<37, 125, 39, 10, 37, 59, 10>> }
Semis == { <<59>>, <<32, 59, 10>>, <<59, 59>> }
Tails == { <<37>>, <<37, 32, 123>>, <<10, 37, 120>> }
\* put layout L[i] before token i (and L[Len + 1] at the end)
RECURSIVE Laid(_, _, _)
Laid(t, L, i) == IF i > Len(t) THEN (IF L[i] = <<>> THEN <<>> ELSE <<<<"l", L[i]>>>>)
                 ELSE (IF L[i] = <<>> THEN <<>> ELSE <<<<"l", L[i]>>>>) \o <<t[i]>> \o Laid(t, L, i + 1)
Default(t) == [i \in 1..(Len(t) + 1) |-> IF i > 1 /\ i <= Len(t) /\ t[i - 1][1] = "v" THEN <<10>> ELSE <<>>]
SemiOk(t, i) == i = 1 \/ t[i - 1][1] \in {"v", "{", "}"}
At1(t, i) == Layouts \cup (IF SemiOk(t, i) THEN Semis ELSE {}) \cup (IF i = Len(t) + 1 THEN Tails ELSE {})
Docs == UNION { LET t == Skel[s] n == Len(t) + 1 D == Default(t) IN
                { Laid(t, [D EXCEPT ![i] = x], 1) : i \in 1..n, x \in UNION { At1(t, j) : j \in 1..n } }
                \cup (IF s \in Wide THEN { Laid(t, [D EXCEPT ![i] = x, ![j] = y], 1) : i \in 1..n, j \in 1..n, x \in Layouts, y \in Layouts } ELSE {}) : s \in Skeletons }
Words == { Laid(<<<<"k", s, x>>, E, <<"v", r, y>>, k(a), E, v(a)>>, <<<<>>, <<>>, l, m, <<>>, <<>>, <<>>>>, 1) : s \in 0..3, x \in KeyTexts, r \in 0..3, y \in Vals, l \in { <<>>, <<32>> }, m \in { <<59>>, <<32, 13, 10>> } }
\* garbled text: all short strings over the syntax characters, and every truncation of the documents
Junk == Lists({97, 61, 123, 125, 37, 34, 39, 92, 59, 10, 32}, 4)
Cut == UNION { LET x == Render(Laid(Skel[s], Default(Skel[s]), 1)) IN { SubSeq(x, 1, n) : n \in 0..Len(x) } : s \in DOMAIN Skel }
Good(d) == WellFormed(d) /\ Complete(d)
\* a semicolon only where one is expected
MCInit == res = Ok /\ last = <<>>
MCNext == /\ last = <<>>
          /\ \/ \E d \in Docs \cup Words : Good(d) /\ LET c == <<"doc", d, Render(d)>> IN Call(c) /\ last' = c
             \/ \E s \in Junk \cup Cut : LET c == <<"any", s>> IN res' = Ok /\ last' = c
Emit == PrintT("C " \o ToJson(last'))
\* layout and quoting do not matter: a document means what its tokens mean
LayoutFree == last = <<>> \/ last[1] = "any" \/ Meaning(last[2]) = Meaning(Tokens(last[2]))
=============================================================================
