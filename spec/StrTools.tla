------------------------------ MODULE StrTools ------------------------------
(* the string helpers of flut (string_tools, system_tools)                  *)
EXTENDS Text
VARIABLE res
vars == <<res>>
Init == res = Ok

Slash == {47, 92}
Left(s, n)  == SubSeq(s, 1, IF n >= 0 THEN Min2(n, Len(s)) ELSE Max2(0, Len(s) + n))
Right(s, n) == IF n >= 0 THEN SubSeq(s, Len(s) - n + 1, Len(s)) ELSE SubSeq(s, 1 - n, Len(s))
Mid(s, p, n) == SubSeq(s, p + 1, IF n < 0 THEN Len(s) ELSE Min2(Len(s), p + n))
InStr(s, t, p) == IF t = <<>> THEN (IF p <= Len(s) THEN p ELSE -1) ELSE FindText(s, t, p + 1) - 1
Tidy(s) == LET p == LastIn(s, {58}) IN
           IF p > 0 THEN Trim(SubSeq(s, p + 1, Len(s)), {95})
           ELSE IF StartsWith(s, <<109, 95>>) THEN TrimRight(SubSeq(s, 3, Len(s)), {95})
           ELSE Trim(s, {95})
\* text behind the last dot, unless that dot belongs to a folder
Ext(s) == LET n == LastIn(s, {46}) e == SubSeq(s, n + 1, Len(s)) IN IF n = 0 \/ LastIn(e, Slash) > 0 THEN <<>> ELSE e
NoExt(s) == IF Ext(s) = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - Len(Ext(s)) - 1)
Folder(s) == SubSeq(s, 1, LastIn(s, Slash))
NoFolder(s) == SubSeq(s, LastIn(s, Slash) + 1, Len(s))
Pad(s, n) == IF Len(s) >= n THEN s ELSE Fill(n - Len(s), 32) \o s

Call(c) == res' = CASE c[1] = "trim"  -> OkV(Trim(c[2], Range(c[3])))
                    [] c[1] = "trimd" -> OkV(TrimSpace(c[2]))
                    [] c[1] = "trimr" -> OkV(TrimRight(c[2], Range(c[3])))
                    [] c[1] = "trimrd" -> OkV(TrimRight(c[2], Space))
                    [] c[1] = "split" -> OkV(Split(c[2], Range(c[3])))
                    [] c[1] = "leftof" -> OkV(LeftOf(c[2], Range(c[3])))
                    [] c[1] = "rightof" -> OkV(RightOf(c[2], Range(c[3])))
                    [] c[1] = "kv"    -> OkV(KeyValue(c[2], Range(c[3])))
                    [] c[1] = "kvd"   -> OkV(KeyValue(c[2], {61}))
                    [] c[1] = "left"  -> OkV(Left(c[2], c[3]))
                    [] c[1] = "right" -> OkV(Right(c[2], c[3]))
                    [] c[1] = "mid"   -> OkV(Mid(c[2], c[3], c[4]))
                    [] c[1] = "instr" -> OkV(InStr(c[2], c[3], c[4]))
                    [] c[1] = "begins" -> OkV(B(StartsWith(c[2], c[3])))
                    [] c[1] = "ends"  -> OkV(B(EndsWith(c[2], c[3])))
                    [] c[1] = "tidy"  -> OkV(Tidy(c[2]))
                    [] c[1] = "ext"   -> OkV(Ext(c[2]))
                    [] c[1] = "noext" -> OkV(NoExt(c[2]))
                    [] c[1] = "folder" -> OkV(Folder(c[2]))
                    [] c[1] = "nofolder" -> OkV(NoFolder(c[2]))
                    [] c[1] = "fmt1"  -> OkV(c[2])                                          \* "%s"
                    [] c[1] = "fmt2"  -> OkV(<<91>> \o c[2] \o <<124>> \o IntText(c[3]) \o <<93>>) \* "[%s|%d]"
                    [] c[1] = "fmt3"  -> OkV(Pad(IntText(c[2]), c[3]) \o c[4])               \* "%*d%s"
                    [] c[1] = "fmt0"  -> OkV(c[2])                                          \* text used as the format
Observed == 0
-----------------------------------------------------------------------------
\* laws that tie the functions together
SplitLaw(s, set) == LET r == Split(s, set) IN
   /\ \A i \in DOMAIN r : r[i] # <<>> /\ \A j \in DOMAIN r[i] : r[i][j] \notin set
   /\ LET F[i \in 0..Len(r)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o r[i] IN F[Len(r)] = SelectSeq(s, LAMBDA b : b \notin set)
TrimLaw(s, set) == LET t == Trim(s, set) IN
   /\ t = <<>> \/ (t[1] \notin set /\ Last(t) \notin set)
   /\ \E a, b \in 0..Len(s) : a + b <= Len(s) /\ t = SubSeq(s, a + 1, Len(s) - b)
                              /\ \A i \in 1..a : s[i] \in set /\ \A j \in (Len(s) - b + 1)..Len(s) : s[j] \in set
FileLaw(s) == Folder(s) \o NoFolder(s) = s /\ (Ext(s) # <<>> => NoExt(s) \o <<46>> \o Ext(s) = s)
PartLaw(s) == \A n \in 0..Len(s) : Left(s, n) \o Mid(s, n, -1) = s /\ (n > 0 => Left(s, -n) \o Right(s, n) = s)
=============================================================================
