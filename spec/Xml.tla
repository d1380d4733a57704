-------------------------------- MODULE Xml --------------------------------
(* xml files as property trees.                                             *)
(* An element is <<name, attributes, space, items, empty>>: attributes are   *)
(* <<space, name, quote, raw text>>, items are <<"t", raw text>>,            *)
(* <<"e", element>>, <<"c", text of a comment>>, <<"w", white space>>;       *)
(* empty = 1 for <name/>.                                                   *)
EXTENDS Tree
VARIABLES files, res
vars == <<files, res>>
Names == 1..2
Init == files = [i \in Names |-> <<>>] /\ res = Ok
Keep(r) == res' = r /\ UNCHANGED files
\* ---------------------------------------------------------------- entities
Utf8(n) == IF n < 128 THEN <<n>> ELSE IF n < 2048 THEN <<192 + (n \div 64), 128 + (n % 64)>> ELSE <<224 + (n \div 4096), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
Hex(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
RECURSIVE Number(_, _)
Number(s, base) == IF s = <<>> THEN 0 ELSE Number(Front(s), base) * base + Hex(Last(s))
Entity(s) == CASE s = <<108, 116>> -> <<60>> [] s = <<103, 116>> -> <<62>> [] s = <<97, 109, 112>> -> <<38>>
               [] s = <<113, 117, 111, 116>> -> <<34>> [] s = <<97, 112, 111, 115>> -> <<39>>
               [] s[1] = 35 /\ s[2] = 120 -> Utf8(Number(From(s, 3), 16)) [] s[1] = 35 /\ s[2] # 120 -> Utf8(Number(From(s, 2), 10))
RECURSIVE Plain(_, _)
\* the characters written by raw text from position p on
Plain(s, p) == LET q == FirstIn(s, {38}, p) IN
               IF q > Len(s) THEN From(s, p)
               ELSE LET e == FirstIn(s, {59}, q) IN SubSeq(s, p, q - 1) \o Entity(SubSeq(s, q + 1, e - 1)) \o Plain(s, e + 1)
Escape(s) == Flatten([i \in DOMAIN s |-> CASE s[i] = 60 -> <<38, 108, 116, 59>> [] s[i] = 62 -> <<38, 103, 116, 59>> [] s[i] = 38 -> <<38, 97, 109, 112, 59>> [] OTHER -> <<s[i]>>])
\* ---------------------------------------------------------------- the text of an element
AttrText(a) == a[1] \o a[2] \o <<61, a[3]>> \o a[4] \o <<a[3]>>
RECURSIVE Render(_)
ItemText(x) == CASE x[1] \in {"t", "w"} -> x[2] [] x[1] = "c" -> <<60, 33, 45, 45>> \o x[2] \o <<45, 45, 62>> [] x[1] = "e" -> Render(x[2])
Render(e) == <<60>> \o e[1] \o Flatten([i \in DOMAIN e[2] |-> AttrText(e[2][i])]) \o e[3] \o
             (IF e[5] = 1 THEN <<47, 62>> ELSE <<62>> \o Flatten([i \in DOMAIN e[4] |-> ItemText(e[4][i])]) \o <<60, 47>> \o e[1] \o <<62>>)
\* ---------------------------------------------------------------- and its meaning
RECURSIVE Meaning(_)
Meaning(e) == LET ts == SelectSeq(e[4], LAMBDA x : x[1] = "t") es == SelectSeq(e[4], LAMBDA x : x[1] = "e") IN
              <<IF ts = <<>> THEN <<>> ELSE Plain(ts[1][2], 1),
                [i \in DOMAIN e[2] |-> <<e[2][i][2], Leaf(Plain(e[2][i][4], 1))>>] \o [i \in DOMAIN es |-> <<es[i][2][1], Meaning(es[i][2])>>]>>
Document(e) == <<<<>>, <<<<e[1], Meaning(e)>>>>>>
\* an element has text or elements, and white space is not next to text
RECURSIVE WellFormed(_)
WellFormed(e) == LET T == { i \in DOMAIN e[4] : e[4][i][1] = "t" } IN
   /\ Cardinality(T) <= 1
   /\ T # {} => \A i \in DOMAIN e[4] : e[4][i][1] \in {"t", "c"}
   /\ \A i \in T : TrimSpace(e[4][i][2]) # <<>> /\ 60 \notin Range(e[4][i][2])
   /\ \A i \in DOMAIN e[4] : e[4][i][1] = "e" => WellFormed(e[4][i][2])
   /\ \A i \in DOMAIN e[2] : e[2][i][3] \notin Range(e[2][i][4]) /\ e[2][i][1] # <<>>
   /\ e[5] = 1 => e[4] = <<>>
\* ---------------------------------------------------------------- trees that can be written
NameOk(s) == s # <<>> /\ (IsAlpha(s[1]) \/ s[1] \in {95, 58}) /\ \A i \in DOMAIN s : IsAlpha(s[i]) \/ IsDigit(s[i]) \/ s[i] \in {95, 58, 45, 46} \/ s[i] > 127
RECURSIVE NodeOk(_)
NodeOk(n) == /\ (Val(n) = <<>> \/ (Kids(n) = <<>> /\ TrimSpace(Val(n)) # <<>> /\ 0 \notin Range(Val(n))))
             /\ \A i \in DOMAIN Kids(n) : NameOk(Kids(n)[i][1]) /\ NodeOk(Kids(n)[i][2])
Writable(n) == Val(n) = <<>> /\ Len(Kids(n)) = 1 /\ NodeOk(n)
Only(b) == IF b THEN TRUE ELSE FALSE
Call(c) ==
  \/ c[1] = "save" /\ Only(Writable(c[3])) /\ files' = [files EXCEPT ![c[2]] = <<c[3]>>] /\ res' = Ok
  \/ c[1] \in {"load", "loadany"} /\ Keep(IF files[c[2]] = <<>> THEN Err ELSE OkV(files[c[2]][1]))
  \/ c[1] = "loadec" /\ Keep(IF files[c[2]] = <<>> THEN OkV(<<1, NoNode>>) ELSE OkV(<<0, files[c[2]][1]>>))
  \/ c[1] = "trip" /\ Only(Writable(c[2])) /\ Keep(OkV(c[2]))
  \* an element between a prolog and an epilog (comments, declarations and white space)
  \/ c[1] = "xml" /\ Only(WellFormed(c[3]) /\ c[5] = c[2] \o Render(c[3]) \o c[4]) /\ Keep(OkV(Document(c[3])))
  \* the first c[3] bytes of an element, not all of it
  \/ c[1] = "cut" /\ Only(WellFormed(c[2]) /\ c[3] > 0 /\ c[3] < Len(Render(c[2])) /\ c[4] = Upto(Render(c[2]), c[3])) /\ Keep(<<"ok", <<1, NoNode>>>>)
Observed == [i \in Names |-> B(files'[i] # <<>>)]
=============================================================================
