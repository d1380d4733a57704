------------------------------- MODULE MC_Xml -------------------------------
EXTENDS Xml, TLC, Json
CONSTANTS ValLen, Deep
VARIABLE hist
a == <<97>>
b == <<98>>
Texts == { s \in Lists({97, 32, 60, 62, 38, 34, 39, 59, 10}, ValLen) : TrimSpace(s) # <<>> }
One(x) == <<<<>>, <<x>>>>
Trees == { One(<<a, Leaf(v)>>) : v \in Texts } \cup { One(<<a, <<<<>>, <<<<b, Leaf(v)>>, <<a, NoNode>>, <<b, Leaf(<<120>>)>>>>>>>>) : v \in Texts }
    \cup { One(<<k, NoNode>>) : k \in { <<97, 45>>, <<95, 49>>, <<65, 46, 98>>, <<97, 58, 98>> } } \cup { One(<<a, One(<<b, One(<<a, One(<<b, Leaf(v)>>)>>)>>)>>) : v \in { <<120>>, <<60>> } }
Ents == { <<>>, <<118>>, <<32, 118, 32>>, <<38, 108, 116, 59>>, <<120, 38, 97, 109, 112, 59, 121>>, <<38, 35, 54, 53, 59>>, <<38, 35, 120, 52, 49, 59>>, <<38, 35, 120, 101, 57, 59>>, <<38, 35, 56, 51, 54, 52, 59, 48>>, <<62>>, <<38, 113, 117, 111, 116, 59, 38, 97, 112, 111, 115, 59>>, <<38, 97, 109, 112, 59, 108, 116, 59>> }
Attrs == { <<>> } \cup { << <<<<32>>, a, q, v>> >> : q \in {34, 39}, v \in Ents } \cup { << <<<<10, 9>>, b, 34, <<49>>>>, <<<<32, 32>>, a, 39, <<34>>>> >> }
Leaves == { <<b, at, sp, <<>>, 1>> : at \in { <<>>, << <<<<32>>, a, 34, <<49>>>> >> }, sp \in { <<>>, <<32>> } }
Ws == { <<>>, << <<"w", <<10, 32>>>> >>, << <<"c", <<32, 60, 120, 62>>>> >>, << <<"w", <<32>>>>, <<"c", <<>>>>, <<"w", <<9>>>> >> }
Elems == { <<a, at, <<>>, << <<"t", v>> >>, 0>> : at \in Attrs, v \in { x \in Ents : TrimSpace(x) # <<>> } }
    \cup { <<a, at, <<32>>, it, 0>> : at \in Attrs, it \in Ws } \cup { <<a, at, <<>>, <<>>, 1>> : at \in Attrs }
    \cup { <<a, at, <<>>, w \o << <<"e", x>> >> \o v \o << <<"e", y>> >> \o w, 0>> : at \in { <<>>, << <<<<32>>, b, 34, <<50>>>> >> }, w \in Ws, v \in Ws, x \in Leaves, y \in Leaves }
    \cup { <<a, <<>>, <<>>, << <<"c", <<45>>>>, <<"t", <<120>>>>, <<"c", a>> >>, 0>> }
Pros == { <<>>, <<60, 63, 120, 109, 108, 32, 118, 101, 114, 115, 105, 111, 110, 61, 34, 49, 46, 48, 34, 63, 62>>, <<10, 60, 33, 45, 45, 32, 60, 97, 62, 32, 45, 45, 62, 32>> }
Some == { One(<<a, NoNode>>), One(<<a, Leaf(<<60, 98, 62>>)>>), One(<<b, <<<<>>, <<<<a, Leaf(<<49>>)>>, <<a, NoNode>>>>>>>>) }
Once == {"trip", "xml", "cut"}
IsPlain == IF hist = <<>> THEN TRUE ELSE hist[1][1] \notin Once
Ones == { <<"trip", t>> : t \in Trees } \cup { <<"xml", p, e, q, p \o Render(e) \o q>> : p \in Pros, e \in Elems, q \in { <<>>, <<10>> } }
    \cup UNION { { <<"cut", e, n, Upto(Render(e), n)>> : n \in 1..(Len(Render(e)) - 1) } : e \in { x \in Elems : Len(x[4]) <= 2 } }
MCInit == Init /\ hist = <<>>
MCNext == \/ IsPlain /\ \E i \in Names : \E c \in { <<f, i>> : f \in {"load", "loadany", "loadec"} } \cup { <<"save", i, t>> : t \in Some } : Call(c) /\ hist' = Append(hist, c)
          \/ hist = <<>> /\ \E c \in Ones : Call(c) /\ hist' = <<c>>
View == <<files, IF IsPlain THEN <<>> ELSE hist>>
Emit == PrintT("H " \o ToJson(hist'))
\* escaping undoes
ASSUME \A v \in Texts : Plain(Escape(v), 1) = v
\* a tree is the meaning of the element that spells it
RECURSIVE Spelled(_, _)
Spelled(k, n) == <<k, <<>>, <<>>, IF Kids(n) = <<>> THEN (IF Val(n) = <<>> THEN <<>> ELSE << <<"t", Escape(Val(n))>> >>) ELSE [i \in DOMAIN Kids(n) |-> <<"e", Spelled(Kids(n)[i][1], Kids(n)[i][2])>>], 0>>
ASSUME \A t \in Trees : Document(Spelled(Kids(t)[1][1], Kids(t)[1][2])) = t
=============================================================================
