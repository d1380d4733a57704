------------------------------- MODULE Cells -------------------------------
(* Small cells: optional values, error codes and interrupt flags. Values of *)
(* optionals are texts; real numbers in hundredths.                         *)
EXTENDS Text
VARIABLES opts,    \* sequence of <<kind, present, value>>
          errs,    \* sequence of <<code, message>>
          ints,    \* sequence of 0 / 1
          res
vars == <<opts, errs, ints, res>>
Kinds == {"str", "int", "size", "float", "double", "short", "llong"}
Reals == {"float", "double"}
Init == opts = <<>> /\ errs = <<>> /\ ints = <<>> /\ res = Ok
\* ---- reading: <<found, value, next position>>
Word(s, p) == LET a == FirstNotIn(s, Space, p) e == FirstIn(s, Space, a) IN <<a <= Len(s), SubSeq(s, a, e - 1), e>>
Pad(d) == IF Len(d) = 0 THEN <<48, 48>> ELSE IF Len(d) = 1 THEN d \o <<48>> ELSE d
Real(s, p) ==
  LET a == FirstNotIn(s, Space, p)
      sg == a <= Len(s) /\ s[a] \in {43, 45}
      b == IF sg THEN a + 1 ELSE a
      e == DigitsEnd(s, b)
      dot == e <= Len(s) /\ s[e] = 46
      f == IF dot THEN DigitsEnd(s, e + 1) ELSE e
      whole == SubSeq(s, b, e - 1)
      part == IF dot THEN SubSeq(s, e + 1, f - 1) ELSE <<>>
  IN IF whole = <<>> /\ part = <<>> THEN <<FALSE, <<>>, p>>
     ELSE <<TRUE, Canon(sg /\ s[a] = 45, whole \o Pad(part)), f>>
ReadAs(kind, s, p) == IF kind = "str" THEN Word(s, p) ELSE IF kind \in Reals THEN Real(s, p) ELSE ReadInt(s, p)
\* the optionals after reading those in list is from s; once a read fails the others fail
ReadAll(os, is, s) ==
  LET One(acc, i) == LET r == IF acc[3] = 0 THEN <<FALSE, <<>>, 0>> ELSE ReadAs(acc[1][i][1], s, acc[3])
                     IN IF r[1] THEN <<[acc[1] EXCEPT ![i] = <<@[1], 1, r[2]>>], Append(acc[2], 1), r[3]>> ELSE <<acc[1], Append(acc[2], 0), 0>>
  IN FoldSeq(One, <<os, <<>>, 1>>, is)
\* texts both kinds of stream read alike: short numbers, no sign before numbers without one, no exponents
Plain(os, is, s) ==
  /\ \A i \in DOMAIN s : s[i] \in (48..57) \cup {43, 45, 46, 32, 10, 122}
  /\ \A i \in DOMAIN s : i + 4 <= Len(s) => \E j \in i..(i + 4) : ~IsDigit(s[j])
  /\ \A i \in DOMAIN s : s[i] = 46 /\ i + 3 <= Len(s) => \E j \in (i + 1)..(i + 3) : ~IsDigit(s[j])
  /\ (\E k \in DOMAIN is : os[is[k]][1] = "size") => \A i \in DOMAIN s : s[i] # 45
Set(i, has, v) == opts' = [opts EXCEPT ![i] = <<@[1], has, v>>] /\ res' = Ok /\ UNCHANGED <<errs, ints>>
Fits(kind, v) == kind = "size" => v[1] # 45
Call(c) ==
  \/ c[1] = "new" /\ c[2] \in Kinds /\ opts' = Append(opts, <<c[2], 0, <<>>>>) /\ res' = Ok /\ UNCHANGED <<errs, ints>>
  \/ c[1] = "newval" /\ c[2] \in Kinds /\ (c[2] # "str" => Fits(c[2], c[3])) /\ opts' = Append(opts, <<c[2], 1, c[3]>>) /\ res' = Ok /\ UNCHANGED <<errs, ints>>
  \/ c[1] = "copyof" /\ c[2] \in DOMAIN opts /\ opts' = Append(opts, opts[c[2]]) /\ res' = Ok /\ UNCHANGED <<errs, ints>>
  \/ c[1] = "assign" /\ c[2] \in DOMAIN opts /\ (opts[c[2]][1] # "str" => Fits(opts[c[2]][1], c[3])) /\ Set(c[2], 1, c[3])
  \/ c[1] = "empty" /\ c[2] \in DOMAIN opts /\ Set(c[2], 0, <<>>)                                                    \* assign an empty optional
  \/ c[1] = "marker" /\ c[2] \in DOMAIN opts /\ opts[c[2]][1] # "str" /\ Set(c[2], 0, <<>>)                          \* assign the reserved value
  \/ c[1] = "copy" /\ c[2] \in DOMAIN opts /\ c[3] \in DOMAIN opts /\ opts[c[2]][1] = opts[c[3]][1] /\ Set(c[3], opts[c[2]][2], opts[c[2]][3])
  \/ c[1] \in {"stream", "chars"} /\ (\A k \in DOMAIN c[2] : c[2][k] \in DOMAIN opts) = TRUE /\ Plain(opts, c[2], c[3]) = TRUE
        /\ (LET r == ReadAll(opts, c[2], c[3]) IN opts' = r[1] /\ res' = OkV(r[2])) /\ UNCHANGED <<errs, ints>>
  \/ c[1] = "code" /\ errs' = Append(errs, <<c[2], c[3]>>) /\ res' = Ok /\ UNCHANGED <<opts, ints>>
  \/ c[1] = "success" /\ errs' = Append(errs, <<0, <<>>>>) /\ res' = Ok /\ UNCHANGED <<opts, ints>>
  \/ c[1] = "failure" /\ errs' = Append(errs, <<-1, c[2]>>) /\ res' = Ok /\ UNCHANGED <<opts, ints>>
  \/ c[1] = "set" /\ c[2] \in DOMAIN errs /\ errs' = [errs EXCEPT ![c[2]] = <<c[3], c[4]>>] /\ res' = Ok /\ UNCHANGED <<opts, ints>>
  \/ c[1] = "setcode" /\ c[2] \in DOMAIN errs /\ errs' = [errs EXCEPT ![c[2]] = <<c[3], <<>>>>] /\ res' = Ok /\ UNCHANGED <<opts, ints>>
  \/ c[1] = "try" /\ c[2] \in 0..Len(errs) /\ errs' = (IF c[2] = 0 THEN errs ELSE [errs EXCEPT ![c[2]] = <<-1, c[3]>>]) /\ res' = OkV(B(c[2] # 0)) /\ UNCHANGED <<opts, ints>>
  \/ c[1] = "errcopy" /\ c[2] \in DOMAIN errs /\ c[3] \in DOMAIN errs /\ errs' = [errs EXCEPT ![c[3]] = errs[c[2]]] /\ res' = Ok /\ UNCHANGED <<opts, ints>>
  \/ c[1] = "task" /\ ints' = Append(ints, 0) /\ res' = Ok /\ UNCHANGED <<opts, errs>>
  \/ c[1] \in {"interrupt", "interruptbase"} /\ c[2] \in DOMAIN ints /\ ints' = [ints EXCEPT ![c[2]] = 1] /\ res' = Ok /\ UNCHANGED <<opts, errs>>
Observed == <<opts', [i \in DOMAIN errs' |-> <<B(errs'[i][1] # 0), B(errs'[i][1] = 0), errs'[i][1], errs'[i][2]>>], ints'>>
=============================================================================
