----------------------------- MODULE MC_Cells -----------------------------
EXTENDS Cells, TLC, Json
CONSTANTS MaxOpts, MaxLen
VARIABLE hist
one == <<49>>
two == <<50>>
m == <<109>>
Texts == { <<>>, one, <<122>>, <<45, 50>>, <<49, 32, 50>>, <<32, 49, 46, 53>>, <<46>>, <<49, 122, 32, 50>>, <<50, 46>>, <<32, 10>>, <<43, 49, 10, 122>> }
Ids == 1..MaxOpts
Opt == { <<"new", k>> : k \in Kinds } \cup { <<"newval", k, one>> : k \in Kinds } \cup { <<"copyof", 1>> }
   \cup { <<"assign", i, v>> : i \in Ids, v \in {one, two, <<48>>} } \cup { <<f, i>> : f \in {"empty", "marker"}, i \in Ids } \cup { <<"copy", i, j>> : i \in Ids, j \in Ids }
   \cup { <<f, is, t>> : f \in {"stream", "chars"}, is \in Lists(Ids, 2) \ {<<>>}, t \in Texts }
Err0 == { <<"code", e, t>> : e \in {0, 7}, t \in {<<>>, m} } \cup { <<"success">>, <<"failure", m>> } \cup { <<"set", i, e, t>> : i \in Ids, e \in {0, -5}, t \in {<<>>, m} }
   \cup { <<"setcode", i, 3>> : i \in Ids } \cup { <<"try", i, m>> : i \in 0..MaxOpts } \cup { <<"errcopy", i, j>> : i \in Ids, j \in Ids }
Ints == { <<"task">> } \cup { <<f, i>> : f \in {"interrupt", "interruptbase"}, i \in Ids }
\* the second cell is of one of three kinds
Second(c) == c[1] \in {"new", "newval"} /\ opts # <<>> => c[2] \in {"str", "int", "double"}
MCInit == Init /\ hist = <<>>
\* the three kinds of cell know nothing of each other: one per history
MCNext == \/ errs = <<>> /\ ints = <<>> /\ \E c \in Opt : (IF Second(c) THEN TRUE ELSE FALSE) /\ Call(c) /\ hist' = Append(hist, c)
          \/ opts = <<>> /\ ints = <<>> /\ \E c \in Err0 : Call(c) /\ hist' = Append(hist, c)
          \/ opts = <<>> /\ errs = <<>> /\ \E c \in Ints : Call(c) /\ hist' = Append(hist, c)
Small == Len(opts) <= MaxOpts /\ Len(errs) <= MaxOpts /\ Len(ints) <= MaxOpts /\ Len(hist) < MaxLen
View == <<opts, errs, ints>>
Emit == PrintT("H " \o ToJson(hist'))
\* a value is there exactly when the cell says so
Sound == \A i \in DOMAIN opts : opts[i][2] = 0 <=> opts[i][3] = <<>>
=============================================================================
