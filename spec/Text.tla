-------------------------------- MODULE Text --------------------------------
(* The text functions of flut as mathematical functions on byte sequences.  *)
EXTENDS Base
LOCAL SX == INSTANCE SequencesExt
Flatten(ss) == SX!FlattenSeq(ss)          \* concatenation of a sequence of texts
FoldSeq(op(_, _), init, s) == SX!FoldLeft(op, init, s)

Space    == {9, 10, 11, 12, 13, 32}
IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
QUOTE == 34
BSL   == 92
NL    == 10
CR    == 13
TAB   == 9

\* ------------------------------------------------------------- searching
\* position of the first / last byte of s from position p on that is (not) in set; Len+1 / 0 when there is none
FirstIn(s, set, p)    == LET S == { i \in p..Len(s) : s[i] \in set } IN IF S = {} THEN Len(s) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
FirstNotIn(s, set, p) == LET S == { i \in p..Len(s) : s[i] \notin set } IN IF S = {} THEN Len(s) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
LastIn(s, set)        == LET S == { i \in 1..Len(s) : s[i] \in set } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
LastNotIn(s, set)     == LET S == { i \in 1..Len(s) : s[i] \notin set } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
OccursAt(s, t, p)     == p + Len(t) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(t) - 1) = t
FindText(s, t, p)     == LET S == { i \in p..(Len(s) - Len(t) + 1) : OccursAt(s, t, i) } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

\* ------------------------------------------------------------- trimming and splitting
TrimRight(s, set) == SubSeq(s, 1, LastNotIn(s, set))
Trim(s, set)      == SubSeq(s, FirstNotIn(s, set, 1), LastNotIn(s, set))
TrimSpace(s)      == Trim(s, Space)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, set, p) == LET b == FirstNotIn(s, set, p) IN
                        IF b > Len(s) THEN <<>>
                        ELSE LET e == FirstIn(s, set, b) IN <<SubSeq(s, b, e - 1)>> \o SplitFrom(s, set, e)
Split(s, set) == SplitFrom(s, set, 1)
LeftOf(s, set)  == SubSeq(s, 1, FirstIn(s, set, 1) - 1)
RightOf(s, set) == SubSeq(s, LastIn(s, set) + 1, Len(s))
KeyValue(s, set) == LET p == FirstIn(s, set, 1) IN
                    IF p > Len(s) THEN <<s, <<>>>>
                    ELSE <<TrimSpace(SubSeq(s, 1, p - 1)), TrimSpace(SubSeq(s, p + 1, Len(s)))>>

\* ------------------------------------------------------------- escapes and quotes
Encode(c) == CASE c = QUOTE -> <<BSL, QUOTE>>
               [] c = BSL   -> <<BSL, BSL>>
               [] c = CR    -> <<BSL, 114>>
               [] c = NL    -> <<BSL, 110>>
               [] c = TAB   -> <<BSL, 116>>
               [] c < 32 /\ c \notin {CR, NL, TAB} -> <<BSL, 48 + (c \div 64), 48 + ((c \div 8) % 8), 48 + (c % 8)>>
               [] OTHER -> <<c>>
IsOct(c) == c >= 48 /\ c <= 55
\* number of octal digits at position p of s, at most three
OctLen(s, p) == LET D(i) == p + i <= Len(s) /\ IsOct(s[p + i]) IN
                IF ~D(0) THEN 0 ELSE IF ~D(1) THEN 1 ELSE IF ~D(2) THEN 2 ELSE 3
OctVal(s, p, n) == IF n = 0 THEN 0 ELSE IF n = 1 THEN s[p] - 48
                   ELSE IF n = 2 THEN (s[p] - 48) * 8 + s[p + 1] - 48
                   ELSE (s[p] - 48) * 64 + (s[p + 1] - 48) * 8 + s[p + 2] - 48
\* the character written at position p of s and the number of bytes it takes
Decode(s, p) ==
  IF s[p] # BSL \/ p = Len(s) THEN <<s[p], 1>>
  ELSE LET c == s[p + 1] IN
       CASE c = 0     -> <<63, 2>>
         [] c = BSL   -> <<BSL, 2>>
         [] c = QUOTE -> <<QUOTE, 2>>
         [] c = 114   -> <<CR, 2>>
         [] c = 110   -> <<NL, 2>>
         [] c = 116   -> <<TAB, 2>>
         [] OTHER     -> LET n == OctLen(s, p + 1)
                             v == OctVal(s, p + 1, n)
                         IN <<IF n > 0 /\ v < 32 THEN v ELSE 63, n + 1>>
EncodeAll(s) == Flatten([i \in DOMAIN s |-> Encode(s[i])])
Quoted(s) == <<QUOTE>> \o EncodeAll(s) \o <<QUOTE>>
Special == {QUOTE, BSL, 39, 61, 123, 125, 37, 59}       \* " \ ' = { } % ;
NeedsQuotes(s) == \E i \in DOMAIN s : s[i] < 33 \/ s[i] \in Special
TryQuoted(s) == IF NeedsQuotes(s) THEN Quoted(s) ELSE s
RECURSIVE DecodeUntil(_, _, _)
\* the text decoded from position p up to an unescaped byte q or the end: <<text, position after it>>
DecodeUntil(s, p, q) ==
  IF p > Len(s) THEN <<<<>>, p>>
  ELSE IF s[p] = q THEN <<<<>>, p + 1>>
  ELSE LET d == IF s[p] = BSL THEN Decode(s, p) ELSE <<s[p], 1>>
           r == DecodeUntil(s, p + d[2], q)
       IN <<<<d[1]>> \o r[1], r[2]>>
TryUnquoted(s) == IF Len(s) < 2 \/ s[1] # QUOTE \/ s[Len(s)] # QUOTE THEN s
                  ELSE DecodeUntil(s, 2, QUOTE)[1]

\* ------------------------------------------------------------- numerals
\* numbers travel as text (TLC has 32 bit integers): canonical decimal notation
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN StripZeros(Tail(d)) ELSE d
Canon(neg, digits) == LET d == StripZeros(digits) IN IF neg /\ d # <<48>> THEN <<45>> \o d ELSE d
\* end of the run of digits starting at p
DigitsEnd(s, p) == FirstNotIn(s, 48..57, p)
\* the integer at position p after optional space and sign: <<found, canonical text, next position>>
ReadInt(s, p) ==
  LET a == FirstNotIn(s, Space, p)
      sg == a <= Len(s) /\ s[a] \in {43, 45}
      b == IF sg THEN a + 1 ELSE a
      e == DigitsEnd(s, b)
  IN IF e = b THEN <<FALSE, <<48>>, p>>
     ELSE <<TRUE, Canon(sg /\ s[a] = 45, SubSeq(s, b, e - 1)), e>>
LexLess(a, b) == \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
LeqDigits(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ LexLess(a, b)))
\* canonical numeral n within lo..hi, where lo is given without its sign
InRange(n, lo, hi) == IF n[1] = 45 THEN LeqDigits(Tail(n), lo) /\ lo # <<48>> ELSE LeqDigits(n, hi)
RECURSIVE NumText(_)
NumText(n) == IF n < 10 THEN <<48 + n>> ELSE NumText(n \div 10) \o <<48 + (n % 10)>>
IntText(n) == IF n < 0 THEN <<45>> \o NumText(-n) ELSE NumText(n)
=============================================================================
