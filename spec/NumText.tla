------------------------------ MODULE NumText ------------------------------
(* conversion between numbers and text. Numbers are canonical numerals      *)
EXTENDS Text
VARIABLES prec, res     \* prec: the number of decimals asked for
vars == <<prec, res>>
Init == prec = 4 /\ res = Ok
N(s) == s   \* a numeral
\* largest magnitude below and above zero for each type, as digits
P15 == <<51,50,55,54,56>>                     M15 == <<51,50,55,54,55>>
U16 == <<54,53,53,51,53>>
P31 == <<50,49,52,55,52,56,51,54,52,56>>      M31 == <<50,49,52,55,52,56,51,54,52,55>>
U32 == <<52,50,57,52,57,54,55,50,57,53>>
P63 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
M63 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
U64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
Zero == <<48>>
Lo(t) == CASE t = "short" -> P15 [] t = "int" -> P31 [] t \in {"long", "llong"} -> P63 [] t \in {"ushort", "uint", "ulong", "ullong", "bool"} -> Zero
Hi(t) == CASE t = "short" -> M15 [] t = "int" -> M31 [] t \in {"long", "llong"} -> M63 [] t = "ushort" -> U16 [] t = "uint" -> U32
           [] t \in {"ulong", "ullong"} -> U64 [] t = "bool" -> <<49>>
Checked(t) == t \in {"long", "llong", "ulong", "ullong"}    \* conversions that report text that is no number
\* reading text s as type t
FromStr(t, s) == LET r == ReadInt(s, 1) IN
    IF r[1] /\ InRange(r[2], Lo(t), Hi(t)) THEN OkV(r[2])
    ELSE IF Checked(t) THEN Err
    ELSE IF ~r[1] THEN OkV(Zero)                              \* unchecked conversions yield zero
    ELSE OkV(IF r[2][1] = 45 THEN <<45>> \o Lo(t) ELSE Hi(t)) \* and saturate
IsNum(t, s) == IF Checked(t) THEN B(FromStr(t, s) # Err) ELSE 1
\* the integers of a delimited list, at most max of them (-1: all), up to the first thing that is no integer
RECURSIVE Ints(_, _, _, _)
Ints(s, p, d, max) == IF max = 0 \/ p > Len(s) THEN <<>>
                      ELSE LET r == ReadInt(s, p) IN
                           IF ~r[1] THEN <<>> ELSE <<r[2]>> \o Ints(s, FirstNotIn(s, d, r[3]), d, max - 1)
RECURSIVE Words(_, _, _, _)
Words(s, p, d, max) == IF max = 0 \/ p > Len(s) THEN <<>>
                       ELSE LET e == FirstIn(s, Space, p) IN
                            IF e = p THEN <<>> ELSE <<SubSeq(s, p, e - 1)>> \o Words(s, FirstNotIn(s, d, e), d, max - 1)
Begin(s, d) == FirstNotIn(s, d, 1)
\* variables read one after the other; kinds is a sequence of "i" (integer) and "w" (word)
RECURSIVE Scan(_, _, _)
Scan(s, p, kinds) == IF kinds = <<>> THEN <<>>
   ELSE IF Head(kinds) = "i"
   THEN LET r == ReadInt(s, p) q == FirstNotIn(s, Space, r[3]) IN
        IF ~r[1] THEN <<>> ELSE <<r[2]>> \o (IF q > Len(s) THEN <<>> ELSE Scan(s, q, Tail(kinds)))
   ELSE LET e == FirstIn(s, Space, p) q == FirstNotIn(s, Space, e) IN
        IF e = p THEN <<>> ELSE <<SubSeq(s, p, e - 1)>> \o (IF q > Len(s) THEN <<>> ELSE Scan(s, q, Tail(kinds)))
\* ---- real numbers, as numerals counting millionths
Zeros(n) == [i \in 1..n |-> 48]
RealText(m) == LET d == IF m[1] = 45 THEN Tail(m) ELSE m
                   e == IF Len(d) < 7 THEN Zeros(7 - Len(d)) \o d ELSE d
               IN (IF m[1] = 45 THEN <<45>> ELSE <<>>) \o Upto(e, Len(e) - 6) \o <<46>> \o From(e, Len(e) - 5)
\* the decimal fraction at p: <<found, millionths, next position>>
ReadReal(s, p) ==
  LET a == FirstNotIn(s, Space, p)
      sg == a <= Len(s) /\ s[a] \in {43, 45}
      b == IF sg THEN a + 1 ELSE a
      e == DigitsEnd(s, b)
      dot == e <= Len(s) /\ s[e] = 46 /\ (e > b \/ (e < Len(s) /\ IsDigit(s[e + 1])))
      f == IF dot THEN DigitsEnd(s, e + 1) ELSE e
      part == IF dot THEN SubSeq(s, e + 1, f - 1) ELSE <<>>
  IN IF f = b THEN <<FALSE, <<48>>, p>> ELSE <<TRUE, Canon(sg /\ s[a] = 45, SubSeq(s, b, e - 1) \o part \o Zeros(6 - Len(part))), f>>
FromReal(s) == LET r == ReadReal(s, 1) IN IF r[1] THEN OkV(r[2]) ELSE Err
RECURSIVE Reals(_, _, _)
Reals(s, p, max) == IF max = 0 \/ p > Len(s) THEN <<>>
                    ELSE LET r == ReadReal(s, p) IN
                         IF ~r[1] THEN <<>> ELSE <<r[2]>> \o Reals(s, FirstNotIn(s, Space, r[3]), max - 1)
Call(c) == prec' = (IF c[1] = "prec" THEN c[2] ELSE prec) /\ res' = CASE c[1] = "to"   -> OkV(c[3])
                    [] c[1] = "from" -> FromStr(c[2], c[3])
                    [] c[1] = "is"   -> OkV(IsNum(c[2], c[3]))
                    [] c[1] = "trip" -> OkV(c[3])
                    [] c[1] = "rto" -> OkV(RealText(c[3]))
                    [] c[1] = "rtrip" -> OkV(c[3])
                    [] c[1] = "rfrom" -> FromReal(c[3])
                    [] c[1] = "ris" -> OkV(B(ReadReal(c[3], 1)[1]))
                    [] c[1] = "rvec" -> OkV(Reals(c[3], Begin(c[3], Space), c[4]))
                    [] c[1] = "eto" -> OkV(c[2])
                    [] c[1] = "efrom" -> OkV(c[2])
                    [] c[1] = "prec" -> OkV(prec)
                    [] c[1] = "words" -> OkV(<<c[2], c[2]>>)
                    [] c[1] = "vec"  -> OkV(Ints(c[2], Begin(c[2], Range(c[4])), Range(c[4]), c[3]))
                    [] c[1] = "vecd" -> OkV(Ints(c[2], Begin(c[2], Space), Space, c[3]))
                    [] c[1] = "vecw" -> OkV(Words(c[2], Begin(c[2], Space), Space, c[3]))
                    \* a list, and up to three scanned variables, of integers of type c[2] (all within its range)
                    [] c[1] = "vect" -> OkV(Ints(c[3], Begin(c[3], Space), Space, c[4]))
                    [] c[1] = "scant" -> LET r == Scan(c[3], Begin(c[3], Space), <<"i", "i", "i">>) IN OkV(<<Len(r), r>>)
                    [] c[1] = "scan" -> LET r == Scan(c[3], Begin(c[3], Space), c[2]) IN OkV(<<Len(r), r>>)
Observed == prec'
-----------------------------------------------------------------------------
Digits(n) == IF n[1] = 45 THEN Tail(n) ELSE n
=============================================================================
