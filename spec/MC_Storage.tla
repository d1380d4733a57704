----------------------------- MODULE MC_Storage -----------------------------
EXTENDS Storage, TLC, Json
CONSTANTS MaxFr, MaxCh, MaxLen
VARIABLE hist
L == { <<97>>, <<98>> }
Calls == { <<g, l, 5>> : g \in {"addch", "faddch"}, l \in L } \cup { <<g, l>> : g \in {"addchd", "dataself"}, l \in L } \cup { <<"addchfrom", l, 0, 0>> : l \in L } \cup { <<"adddata", l, d>> : l \in L, d \in { <<>>, <<6>>, <<6, 7>> } }
    \cup { <<"find", l>> : l \in L } \cup { <<"label", i, l>> : i \in 0..1, l \in L } \cup { <<"frame", 4>>, <<"framed">>, <<"framev", <<8>>>>, <<"framev", <<8, 9>>>>, <<"frameself">>, <<"clear">>, <<"copy">>, <<"print">> }
    \cup { <<g, f, c>> : g \in {"at", "cat"}, f \in 0..MaxFr, c \in 0..MaxCh } \cup { <<"atset", f, c, 3>> : f \in 0..MaxFr, c \in 0..MaxCh }
    \cup { <<"last", c>> : c \in 0..MaxCh } \cup { <<"lastset", 0, 2>> } \cup { <<"lset", l, 1>> : l \in L } \cup { <<g, l>> : g \in {"lget", "clget"}, l \in L }
    \cup { <<"interp", f, 1, 0>> : f \in 0..MaxFr } \cup { <<"resize", f, c, 9>> : f \in 0..MaxFr, c \in 0..MaxCh }
Bound(c) == /\ (c[1] \in {"frame", "framed", "framev", "frameself"} => Fr < MaxFr)
            /\ (c[1] \in {"addch", "addchd", "adddata", "addchfrom", "dataself", "faddch", "lset", "lget"} => Ch < MaxCh \/ HasLabel(lab, c[2]))
MCInit == Init /\ hist = <<>>
MCNext == \/ hist = <<>> /\ \E f \in 0..MaxFr, c \in 0..MaxCh : LET x == <<"new", f, c, 1>> IN Call(x) /\ hist' = <<x>>
          \/ hist # <<>> /\ Len(hist) < MaxLen /\ \E c \in Calls : Bound(c) /\ Call(c) /\ hist' = Append(hist, c)
View == <<lab, cells, Len(hist)>>
Emit == PrintT("H " \o ToJson(hist'))
=============================================================================
