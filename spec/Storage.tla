------------------------------ MODULE Storage ------------------------------
(* flut::storage: frames of labelled channels                               *)
EXTENDS Header, Text
VARIABLES lab,    \* channel labels
          cells,  \* sequence of frames, each a sequence of values
          res
vars == <<lab, cells, res>>
Ch == Len(lab)
Fr == Len(cells)
Init == lab = <<>> /\ cells = <<>> /\ res = Ok
Refuse(r) == res' = r /\ UNCHANGED <<lab, cells>>
Become(l, x, r) == lab' = l /\ cells' = x /\ res' = r
\* nf frames of nc channels, new cells filled with v
Resized(nf, nc, v) == [f \in 1..nf |-> [c \in 1..nc |-> IF f <= Fr /\ c <= Ch THEN cells[f][c] ELSE v]]
AddChannel(l, v) == IF HasLabel(lab, l) THEN Refuse(Err) ELSE Become(Append(lab, <<l>>), Resized(Fr, Ch + 1, v), OkV(Ch))
AddData(l, d) == IF HasLabel(lab, l) THEN Refuse(Err)
   ELSE LET r == Resized(Max2(Fr, Len(d)), Ch + 1, 0)
        IN Become(Append(lab, <<l>>), [f \in DOMAIN r |-> IF f <= Len(d) THEN Replace(r[f], Ch + 1, d[f]) ELSE r[f]], OkV(Ch))
Find(l) == Refuse(OkV(FindLabel(lab, l)))
In(f, c) == f < Fr /\ c < Ch
Cell(f, c) == cells[f + 1][c + 1]
Write(f, c, x, bad) == IF In(f, c) THEN Become(lab, [cells EXCEPT ![f + 1][c + 1] = x], Ok) ELSE Refuse(bad)
WithLabel(l) == IF HasLabel(lab, l) THEN <<lab, cells>> ELSE <<Append(lab, <<l>>), Resized(Fr, Ch + 1, 0)>>
RECURSIVE WriteAll(_, _, _, _)
WriteAll(lb, cl, ls, xs) == IF ls = <<>> THEN <<lb, cl>>
   ELSE LET has == HasLabel(lb, ls[1])
            l2 == IF has THEN lb ELSE Append(lb, <<ls[1]>>)
            c2 == IF has THEN cl ELSE [f \in DOMAIN cl |-> Append(cl[f], 0)]
            k == FindLabel(l2, ls[1])
        IN WriteAll(l2, [c2 EXCEPT ![Len(c2)][k + 1] = xs[1]], Tail(ls), Tail(xs))
LastWrites(ls, xs) == IF Fr = 0 THEN Refuse(None) ELSE LET w == WriteAll(lab, cells, ls, xs) IN Become(w[1], w[2], Ok)
Dot(l, s) == l \o <<46>> \o s
Interp(f, q, c) == Refuse(IF c >= Ch THEN None ELSE IF f + 1 < Fr THEN OkV((4 - q) * Cell(f, c) + q * Cell(f + 1, c)) ELSE Err)
RECURSIVE Join(_, _)
Join(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o (IF i = Len(ss) THEN <<10>> ELSE <<9>>) \o Join(ss, i + 1)
RECURSIVE Concat(_, _)
Concat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Concat(ss, i + 1)
Printed == Join(Texts(lab), 1) \o Concat([f \in DOMAIN cells |-> Join([c \in DOMAIN lab |-> IntText(cells[f][c])], 1)], 1)
Call(c) ==
  \/ c[1] = "new"    /\ Become(Unlabelled(c[3]), Fill(c[2], Fill(c[3], c[4])), Ok)
  \/ c[1] = "addch"  /\ AddChannel(c[2], c[3])
  \/ c[1] = "addchd" /\ AddChannel(c[2], 0)
  \/ c[1] = "adddata" /\ AddData(c[2], c[3])
  \/ c[1] = "faddch" /\ (IF HasLabel(lab, c[2]) THEN Find(c[2]) ELSE AddChannel(c[2], c[3]))
  \/ c[1] = "find"   /\ Find(c[2])
  \/ c[1] = "label"  /\ (IF CanSet(lab, c[2], c[3]) THEN Become(SetLabel(lab, c[2], c[3]), cells, Ok) ELSE Refuse(Err))
  \/ c[1] = "frame"  /\ Become(lab, Append(cells, Fill(Ch, c[2])), Ok)
  \/ c[1] = "framed" /\ Become(lab, Append(cells, Fill(Ch, 0)), Ok)
  \/ c[1] = "framev" /\ (IF Len(c[2]) = Ch THEN Become(lab, Append(cells, c[2]), Ok) ELSE Refuse(Err))
  \* values given by references to the storage itself
  \/ c[1] = "addchfrom" /\ (IF In(c[3], c[4]) THEN AddChannel(c[2], Cell(c[3], c[4])) ELSE Refuse(None))
  \/ c[1] = "dataself" /\ AddData(c[2], Concat(cells, 1))
  \/ c[1] = "frameself" /\ (IF Fr * Ch = Ch THEN Become(lab, Append(cells, Concat(cells, 1)), Ok) ELSE Refuse(Err))
  \/ c[1] = "clear"  /\ Become(<<>>, <<>>, Ok)
  \/ c[1] \in {"at", "cat"} /\ Refuse(IF In(c[2], c[3]) THEN OkV(Cell(c[2], c[3])) ELSE Err)
  \/ c[1] = "atset"  /\ Write(c[2], c[3], c[4], Err)
  \/ c[1] = "set"    /\ Write(c[2], c[3], c[4], None)
  \/ c[1] \in {"last", "clast"} /\ Refuse(IF Fr = 0 \/ Ch = 0 THEN Err ELSE IF c[2] < Ch THEN OkV(Cell(Fr - 1, c[2])) ELSE None)
  \/ c[1] = "lastset" /\ (IF Fr = 0 \/ Ch = 0 THEN Refuse(Err) ELSE Write(Fr - 1, c[2], c[3], None))
  \/ c[1] = "lset"   /\ LastWrites(<<c[2]>>, <<c[3]>>)
  \/ c[1] = "lget"   /\ (IF Fr = 0 THEN Refuse(None) ELSE LET w == WithLabel(c[2]) IN Become(w[1], w[2], OkV(w[2][Fr][FindLabel(w[1], c[2]) + 1])))
  \/ c[1] = "clget"  /\ Refuse(IF Fr = 0 \/ ~HasLabel(lab, c[2]) THEN None ELSE OkV(Cell(Fr - 1, FindLabel(lab, c[2]))))
  \/ c[1] = "vec3"   /\ LastWrites(<<Dot(c[2], <<120>>), Dot(c[2], <<121>>), Dot(c[2], <<122>>)>>, c[3])
  \/ c[1] = "quat"   /\ LastWrites(<<Dot(c[2], <<119>>), Dot(c[2], <<120>>), Dot(c[2], <<121>>), Dot(c[2], <<122>>)>>, c[3])
  \/ c[1] = "interp" /\ Interp(c[2], c[3], c[4])
  \/ c[1] = "resize" /\ (IF c[2] < Fr \/ c[3] < Ch THEN Refuse(Err) ELSE Become(Grown(lab, c[3]), Resized(c[2], c[3], c[4]), Ok))
  \/ c[1] = "copy"   /\ Refuse(Ok)
  \/ c[1] = "print"  /\ Refuse(OkV(Printed))
Observed == <<Texts(lab'), cells', B(Len(lab') * Len(cells') = 0)>>
-----------------------------------------------------------------------------
Rectangular == \A f \in DOMAIN cells : Len(cells[f]) = Ch
Labels == NoTwoLabelsEqual(lab)
\* a call changes the contents of at most one existing cell (three or four for vectors), unless everything is cleared or new
CellsKept == [][ (lab' = <<>> \/ Fr = 0) \/ Cardinality({ <<f, c>> \in (1..Fr) \X (1..Ch) : cells'[f][c] # cells[f][c] }) <= 4 ]_vars
ErrKeepsAll == [][ res' = Err => UNCHANGED <<lab, cells>> ]_vars
=============================================================================
