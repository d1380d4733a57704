---------------------------- MODULE MC_PropFile ----------------------------
EXTENDS PropFile, TLC, Json
CONSTANTS Chars, MaxLen, Chars2
VARIABLE hist
a == <<97>>
Texts == { s \in Lists(Chars, MaxLen) : Trimmed(s) }
KeyTexts == { s \in { <<98>> \o t : t \in Lists(Chars, MaxLen - 1) } : Trimmed(s) }
Two(x, y) == <<<<>>, <<x, y>>>>
One(x) == <<<<>>, <<x>>>>
\* every value and key on its own, beside a sibling, above and inside a group
Shapes == { One(<<a, Leaf(v)>>) : v \in Texts } \cup { Two(<<k, NoNode>>, <<a, Leaf(<<118>>)>>) : k \in KeyTexts }
     \cup { Two(<<a, <<v, <<<<a, Leaf(v)>>, <<a, NoNode>>>>>>>>, <<a, Leaf(v)>>) : v \in Texts }
     \cup { One(<<k, <<<<>>, <<<<k, <<k, <<<<k, NoNode>>>>>>>>>>>>>>) : k \in KeyTexts }
     \cup { Two(<<<<97>> \o v \o <<98>>, Leaf(w)>>, <<a, Leaf(v)>>) : v \in Lists(Chars2, 2), w \in { s \in Lists(Chars2, 2) : Trimmed(s) } }
Small == { NoNode, One(<<a, NoNode>>), Two(<<a, Leaf(<<118, 32, 119>>)>>, <<a, <<<<>>, <<<<a, Leaf(<<61>>)>>>>>>>>),
           One(<<<<98, 34>>, <<<<123, 125>>, <<<<a, NoNode>>, <<a, Leaf(<<37, 59>>)>>>>>>>>) }
Calls == { <<"save", i, t, r>> : i \in Names, t \in Small, r \in {0, 1} } \cup { <<"savedef", i, t>> : i \in Names, t \in Small }
   \cup { <<f, i>> : f \in {"load", "loadany", "parse", "loadec", "remove"}, i \in Names } \cup { <<"again", i, j, r>> : i \in Names, j \in Names, r \in {0, 1} } \cup { <<"savebad">> }
   \cup { <<"savelim", 1, t, 0, n>> : t \in Small, n \in {0, 3, 12, 99} }
Empty == files = [i \in Names |-> <<>>]
MCInit == Init /\ hist = <<>>
MCNext == \/ \E c \in Calls : Call(c) /\ hist' = Append(hist, c)
          \/ Empty /\ \E t \in Shapes : Call(<<"trip", t>>) /\ hist' = <<<<"trip", t>>>>
View == files
Emit == PrintT("H " \o ToJson(hist'))
AllWritable == \A t \in Shapes : Writable(t)
=============================================================================
