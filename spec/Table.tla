-------------------------------- MODULE Table --------------------------------
(* flut::table: cells addressed by row and column index or label             *)
EXTENDS Header, Text
VARIABLES rl, cl,   \* row and column labels
          cells, res
vars == <<rl, cl, cells, res>>
R == Len(rl)
C == Len(cl)
Init == rl = <<>> /\ cl = <<>> /\ cells = <<>> /\ res = Ok
Refuse(r) == res' = r /\ UNCHANGED <<rl, cl, cells>>
Become(a, b, x, r) == rl' = a /\ cl' = b /\ cells' = x /\ res' = r
Resized(nr, nc, v) == [i \in 1..nr |-> [j \in 1..nc |-> IF i <= R /\ j <= C THEN cells[i][j] ELSE v]]
AddRow(l, v) == IF HasLabel(rl, l) THEN Refuse(Err) ELSE Become(Append(rl, <<l>>), cl, Resized(R + 1, C, v), OkV(R))
AddCol(l, v) == IF HasLabel(cl, l) THEN Refuse(Err) ELSE Become(rl, Append(cl, <<l>>), Resized(R, C + 1, v), OkV(C))
In(i, j) == i < R /\ j < C
\* the table with row l and column m present, new cells zero
With(l, m) == LET nr == IF HasLabel(rl, l) THEN R ELSE R + 1
                  nc == IF HasLabel(cl, m) THEN C ELSE C + 1
              IN << IF nr > R THEN Append(rl, <<l>>) ELSE rl, IF nc > C THEN Append(cl, <<m>>) ELSE cl, Resized(nr, nc, 0) >>
RECURSIVE Tabbed(_, _)
Tabbed(ss, i) == IF i > Len(ss) THEN <<10>> ELSE <<9>> \o ss[i] \o Tabbed(ss, i + 1)
RECURSIVE Lines(_)
Lines(i) == IF i > R THEN <<>> ELSE LabelText(rl[i]) \o Tabbed([j \in 1..C |-> IntText(cells[i][j])], 1) \o Lines(i + 1)
Printed == <<82, 111, 119>> \o Tabbed(Texts(cl), 1) \o Lines(1)
Call(c) ==
  \/ c[1] = "new"     /\ Become(Unlabelled(c[2]), Unlabelled(c[3]), Fill(c[2], Fill(c[3], 0)), Ok)
  \/ c[1] = "addrow"  /\ AddRow(c[2], c[3])
  \/ c[1] = "addcol"  /\ AddCol(c[2], c[3])
  \/ c[1] = "addrowd" /\ AddRow(c[2], 0)
  \/ c[1] = "addcold" /\ AddCol(c[2], 0)
  \/ c[1] = "goarow"  /\ (IF HasLabel(rl, c[2]) THEN Refuse(OkV(FindLabel(rl, c[2]))) ELSE AddRow(c[2], c[3]))
  \/ c[1] = "goacol"  /\ (IF HasLabel(cl, c[2]) THEN Refuse(OkV(FindLabel(cl, c[2]))) ELSE AddCol(c[2], c[3]))
  \/ c[1] = "resize"  /\ (IF c[2] < R \/ c[3] < C THEN Refuse(Err) ELSE Become(Grown(rl, c[2]), Grown(cl, c[3]), Resized(c[2], c[3], c[4]), Ok))
  \* the value is given by a reference to a cell of the table itself
  \/ c[1] = "addrowfrom" /\ (IF In(c[3], c[4]) THEN AddRow(c[2], cells[c[3] + 1][c[4] + 1]) ELSE Refuse(None))
  \/ c[1] = "addcolfrom" /\ (IF In(c[3], c[4]) THEN AddCol(c[2], cells[c[3] + 1][c[4] + 1]) ELSE Refuse(None))
  \/ c[1] = "goacolfrom" /\ (IF ~In(c[3], c[4]) THEN Refuse(None) ELSE IF HasLabel(cl, c[2]) THEN Refuse(OkV(FindLabel(cl, c[2]))) ELSE AddCol(c[2], cells[c[3] + 1][c[4] + 1]))
  \/ c[1] = "resizefrom" /\ (IF ~In(c[4], c[5]) THEN Refuse(None) ELSE IF c[2] < R \/ c[3] < C THEN Refuse(Err) ELSE Become(Grown(rl, c[2]), Grown(cl, c[3]), Resized(c[2], c[3], cells[c[4] + 1][c[5] + 1]), Ok))
  \/ c[1] \in {"get", "cget"} /\ Refuse(IF In(c[2], c[3]) THEN OkV(cells[c[2] + 1][c[3] + 1]) ELSE Err)
  \/ c[1] = "set"     /\ (IF In(c[2], c[3]) THEN Become(rl, cl, [cells EXCEPT ![c[2] + 1][c[3] + 1] = c[4]], Ok) ELSE Refuse(Err))
  \/ c[1] = "lcget"   /\ Refuse(IF HasLabel(rl, c[2]) /\ HasLabel(cl, c[3]) THEN OkV(cells[FindLabel(rl, c[2]) + 1][FindLabel(cl, c[3]) + 1]) ELSE Err)
  \/ c[1] = "lget"    /\ LET w == With(c[2], c[3]) IN Become(w[1], w[2], w[3], OkV(w[3][FindLabel(w[1], c[2]) + 1][FindLabel(w[2], c[3]) + 1]))
  \/ c[1] = "lset"    /\ LET w == With(c[2], c[3]) IN Become(w[1], w[2], [w[3] EXCEPT ![FindLabel(w[1], c[2]) + 1][FindLabel(w[2], c[3]) + 1] = c[4]], Ok)
  \/ c[1] = "find"    /\ Refuse(OkV(<<FindLabel(rl, c[2]), FindLabel(cl, c[2])>>))
  \/ c[1] = "copy"    /\ Refuse(Ok)
  \/ c[1] = "print"   /\ Refuse(OkV(Printed))
Observed == <<Texts(rl'), Texts(cl'), cells'>>
-----------------------------------------------------------------------------
Rectangular == Len(cells) = R /\ \A i \in DOMAIN cells : Len(cells[i]) = C
Labels == NoTwoLabelsEqual(rl) /\ NoTwoLabelsEqual(cl)
CellsKept == [][ Cardinality({ <<i, j>> \in (1..R) \X (1..C) : cells'[i][j] # cells[i][j] }) <= 1 ]_vars
ErrKeepsAll == [][ res' = Err => UNCHANGED <<rl, cl, cells>> ]_vars
=============================================================================
