----------------------------- MODULE CharStream -----------------------------
(* flut::char_stream: reading tokens, lines, words, numbers and characters  *)
(* from a text. The text has no zero bytes.                                 *)
EXTENDS Text
VARIABLES text, delim,      \* the text and the set of delimiters
          pos,              \* position of the next character to read
          fail, res
vars == <<text, delim, pos, fail, res>>

Eof  == pos > Len(text)                  \* the end flag is raised exactly when the text is exhausted
Good == ~Eof /\ ~fail
SkipDelim(p) == FirstNotIn(text, delim, p)
SetOf(s) == Range(s)

Init == text = <<>> /\ delim = {} /\ pos = 1 /\ fail = FALSE /\ res = Ok

New(t, d) == /\ text' = t /\ delim' = SetOf(d) /\ fail' = FALSE
             /\ pos' = FirstNotIn(t, SetOf(d), 1) /\ res' = Ok

\* the token at position p: <<text of the token, position after it>>
\*   b: start of the unquoted run being read, s: what was read before it, q: whether a quoted part was read
RECURSIVE Token(_, _, _, _, _, _)
Token(p, b, s, q, ops, quo) ==
  IF p > Len(text) \/ text[p] \in delim THEN <<s \o SubSeq(text, b, p - 1), p>>
  ELSE IF text[p] \in quo
  THEN LET d == DecodeUntil(text, p + 1, text[p])
       IN Token(d[2], d[2], s \o SubSeq(text, b, p - 1) \o d[1], TRUE, ops, quo)
  ELSE IF text[p] \in ops
  THEN IF p = b /\ s = <<>> /\ ~q THEN <<<<text[p]>>, p + 1>>      \* an operator is a token by itself
       ELSE <<s \o SubSeq(text, b, p - 1), p>>
  ELSE Token(p + 1, b, s, q, ops, quo)

GetToken(ops, quo) ==
  IF Good THEN LET t == Token(pos, pos, <<>>, FALSE, SetOf(ops), SetOf(quo))
               IN res' = OkV(t[1]) /\ pos' = SkipDelim(t[2]) /\ UNCHANGED <<text, delim, fail>>
          ELSE res' = OkV(<<>>) /\ pos' = SkipDelim(pos) /\ UNCHANGED <<text, delim, fail>>

\* reading something that ends before position e; reading nothing is a failure
Advance(e) == IF e = pos THEN fail' = TRUE /\ UNCHANGED <<pos, text, delim>>
                         ELSE pos' = SkipDelim(e) /\ UNCHANGED <<fail, text, delim>>
GetLine == LET e == FirstIn(text, {NL, CR}, pos) IN res' = OkV(SubSeq(text, pos, e - 1)) /\ Advance(e)
GetWord == LET e == FirstIn(text, Space, pos)    IN res' = OkV(SubSeq(text, pos, e - 1)) /\ Advance(e)
GetInt  == LET r == ReadInt(text, pos) IN /\ res' = OkV(r[2])
                                          /\ IF r[1] THEN Advance(r[3]) ELSE Advance(pos)
\* a decimal fraction: <<found, millionths, next position>>
Digit(s, i) == IF i <= Len(s) THEN s[i] - 48 ELSE 0
RECURSIVE Value(_)
Value(d) == IF d = <<>> THEN 0 ELSE Value(Front(d)) * 10 + Last(d) - 48
ReadReal(s, p) ==
  LET a == FirstNotIn(s, Space, p)
      sg == a <= Len(s) /\ s[a] \in {43, 45}
      b == IF sg THEN a + 1 ELSE a
      e == DigitsEnd(s, b)
      dot == e <= Len(s) /\ s[e] = 46 /\ (e > b \/ (e < Len(s) /\ IsDigit(s[e + 1])))
      e2 == IF dot THEN DigitsEnd(s, e + 1) ELSE e
      fr == SubSeq(s, e + 1, e2 - 1)
      micro == Value(SubSeq(s, b, e - 1)) * 1000000 + Value([i \in 1..6 |-> 48 + Digit(fr, i)])
  IN IF e2 = b THEN <<FALSE, 0, p>> ELSE <<TRUE, IF sg /\ s[a] = 45 THEN -micro ELSE micro, e2>>
GetReal == LET r == ReadReal(text, pos) IN /\ res' = OkV(r[2])
                                           /\ IF r[1] THEN Advance(r[3]) ELSE Advance(pos)
GetChar == IF Good THEN res' = OkV(text[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<text, delim, fail>>
                   ELSE res' = None /\ UNCHANGED <<text, delim, pos, fail>>
PeekChar == res' = (IF Eof THEN OkV(0) ELSE OkV(text[pos])) /\ UNCHANGED <<text, delim, pos, fail>>
\* read all remaining tokens
RECURSIVE Tokens(_, _, _)
Tokens(p, ops, quo) == IF p > Len(text) THEN <<>>
                       ELSE LET t == Token(p, p, <<>>, FALSE, ops, quo) IN <<t[1]>> \o Tokens(SkipDelim(t[2]), ops, quo)
AllTokens(ops, quo) == IF Good THEN /\ res' = OkV(Tokens(pos, SetOf(ops), SetOf(quo)))
                                    /\ pos' = Len(text) + 1 /\ UNCHANGED <<text, delim, fail>>
                       ELSE res' = OkV(<<>>) /\ UNCHANGED <<text, delim, pos, fail>>

Call(c) ==
  \/ c[1] \in {"new", "newstr", "newfile", "load"} /\ New(c[2], c[3])
  \/ c[1] \in {"newd", "newstrd", "loadd"} /\ New(c[2], <<32, 9, 13, 10, 12, 11>>)    \* white space separates by default
  \/ c[1] = "loadec" /\ text' = <<>> /\ delim' = SetOf(c[2]) /\ fail' = FALSE /\ pos' = 1 /\ res' = OkV(1)
  \/ c[1] = "missing" /\ res' = Err /\ UNCHANGED <<text, delim, pos, fail>>   \* a file that does not exist
  \/ c[1] = "token" /\ GetToken(c[2], c[3])
  \/ c[1] = "tokend" /\ GetToken(<<>>, <<34>>)
  \/ c[1] = "tokens" /\ AllTokens(c[2], c[3])
  \/ c[1] = "line" /\ GetLine
  \/ c[1] = "word" /\ GetWord
  \/ c[1] \in {"int", "uint", "short", "ushort", "long", "ulong", "llong", "ullong"} /\ GetInt
  \/ c[1] \in {"float", "double"} /\ GetReal
  \/ c[1] = "getc" /\ GetChar
  \/ c[1] = "peekc" /\ PeekChar
Observed == <<B(Good)', B(Eof)', B(fail')>>
-----------------------------------------------------------------------------
InText == pos \in 1..(Len(text) + 1)
=============================================================================
