------------------------------ MODULE PropParse ------------------------------
(* What a property document means. A document is a sequence of pieces:      *)
(*   <<"l", text>>          layout: white space, ';' and comments           *)
(*   <<"k", style, text>>   a key,   <<"v", style, text>> a value           *)
(*   <<"=">>, <<"{">>, <<"}">>                                              *)
(* style 0: bare, 1: double quotes with escapes, 2: single quotes, 3: double *)
(* quotes in which only quote and backslash are escaped                     *)
EXTENDS Tree
VARIABLES res
vars == <<res>>
Init == res = Ok
Delims == {9, 10, 11, 13, 59}
\* ------------------------------------------------------------ the text of a document
EncSingle(s) == Flatten([i \in DOMAIN s |-> IF s[i] = QUOTE THEN <<QUOTE>> ELSE Encode(s[i])])
EncRaw(s) == Flatten([i \in DOMAIN s |-> IF s[i] \in {QUOTE, BSL} THEN <<BSL, s[i]>> ELSE <<s[i]>>])
Word(style, s) == CASE style = 0 -> s [] style = 1 -> Quoted(s) [] style = 2 -> <<39>> \o EncSingle(s) \o <<39>> [] style = 3 -> <<QUOTE>> \o EncRaw(s) \o <<QUOTE>>
Piece(p) == CASE p[1] = "l" -> p[2] [] p[1] \in {"k", "v"} -> Word(p[2], p[3]) [] p[1] = "=" -> <<61>> [] p[1] = "{" -> <<123>> [] p[1] = "}" -> <<125>>
Render(d) == Flatten([i \in DOMAIN d |-> Piece(d[i])])
\* ------------------------------------------------------------ well-formed documents
BareOk(s) == s # <<>> /\ TrimSpace(s) = s /\ \A i \in DOMAIN s : s[i] \notin Delims \cup {QUOTE, 39, 61, 123, 125, 37, 0}
WordOk(style, s) == /\ 0 \notin Range(s) /\ TrimSpace(s) = s
                    /\ CASE style = 0 -> BareOk(s) [] style = 2 -> 39 \notin Range(s) [] OTHER -> TRUE
\* layout: comments run from % to the end of the line, or of the document
RECURSIVE LayoutFrom(_, _, _)
LayoutFrom(s, p, last) ==
   IF p > Len(s) THEN TRUE
   ELSE IF s[p] = 37 THEN LET e == FirstIn(s, {NL, CR}, p) IN (e <= Len(s) \/ last) /\ LayoutFrom(s, e + 1, last)
   ELSE s[p] \in Space \cup {59} /\ LayoutFrom(s, p + 1, last)
\* layout that separates two words
Separates(s) == \E i \in DOMAIN s : s[i] \in Delims \cup {37}
WellFormed(d) == \A i \in DOMAIN d :
   CASE d[i][1] = "l" -> LayoutFrom(d[i][2], 1, i = Len(d)) /\ (i > 1 => d[i - 1][1] # "l")
     [] d[i][1] = "k" -> /\ WordOk(d[i][2], d[i][3]) /\ d[i][3] # <<>> /\ IsAlpha(d[i][3][1])
                         /\ (i > 1 => d[i - 1][1] # "v" /\ d[i - 1][1] # "k" /\ (d[i - 1][1] = "l" /\ i > 2 /\ d[i - 2][1] = "v" => Separates(d[i - 1][2])))
     [] d[i][1] = "v" -> WordOk(d[i][2], d[i][3])
     [] OTHER -> TRUE
\* ------------------------------------------------------------ meaning
Tokens(d) == SelectSeq(d, LAMBDA p : p[1] # "l")
\* reading tokens: a stack of open groups, each the sequence of its nodes so far; the last node of the top is the current one
SetLast(ns, x) == Replace(ns, Len(ns), x)
Push(stack, tok) ==
  LET top == Last(stack) IN
  CASE tok[1] = "k" -> SetLast(stack, Append(top, <<tok[3], NoNode>>))
    [] tok[1] = "=" -> stack
    [] tok[1] = "v" -> SetLast(stack, SetLast(top, <<Last(top)[1], Leaf(tok[3])>>))
    [] tok[1] = "{" -> Append(stack, <<>>)
    [] tok[1] = "}" -> LET up == stack[Len(stack) - 1] n == Last(up)
                       IN Append(Upto(stack, Len(stack) - 2), SetLast(up, <<n[1], <<Val(n[2]), top>>>>))
Meaning(d) == <<<<>>, FoldSeq(Push, <<<<>>>>, Tokens(d))[1]>>
\* groups are closed, keys have a value or a group
Depth(x, tok) == IF x < 0 THEN x ELSE IF tok[1] = "{" THEN x + 1 ELSE IF tok[1] = "}" THEN x - 1 ELSE x
Complete(d) == LET t == Tokens(d) IN
   /\ FoldSeq(Depth, 0, t) = 0
   /\ t # <<>> => t[1][1] = "k" /\ t[Len(t)][1] \in {"v", "}"}
   /\ \A i \in 1..(Len(t) - 1) : t[i + 1][1] \in (CASE t[i][1] = "k" -> {"=", "{"} [] t[i][1] = "=" -> {"v"} [] t[i][1] = "v" -> {"k", "{", "}"}
                                                  [] t[i][1] = "{" -> {"k", "}"} [] t[i][1] = "}" -> {"k", "}"})
-----------------------------------------------------------------------------
Call(c) ==
  \/ /\ c[1] = "doc"
     /\ IF WellFormed(c[2]) /\ Complete(c[2]) THEN c[3] = Render(c[2]) ELSE FALSE      \* (IF: evaluated once)
     /\ res' = OkV(Meaning(c[2]))
  \/ c[1] = "any" /\ res' \in {Ok, Err}               \* any text at all: an answer, and no access outside the text
Observed == 0
=============================================================================
