------------------------------- MODULE MC_Table -------------------------------
EXTENDS Table, TLC, Json
CONSTANTS MaxR, MaxC, MaxLen
VARIABLE hist
L == { <<97>>, <<98>> }
Calls == { <<g, l, 5>> : g \in {"addrow", "addcol", "goarow", "goacol"}, l \in L } \cup { <<g, l>> : g \in {"addrowd", "addcold", "find"}, l \in L }
    \cup { <<"resize", r, c, 7>> : r \in 0..MaxR, c \in 0..MaxC } \cup { <<g, r, c>> : g \in {"get", "cget"}, r \in 0..MaxR, c \in 0..MaxC } \cup { <<"set", r, c, 9>> : r \in 0..MaxR, c \in 0..MaxC }
    \cup { <<g, l, m>> : g \in {"lget", "lcget"}, l \in L, m \in L } \cup { <<"lset", l, m, 3>> : l \in L, m \in L } \cup { <<"copy">>, <<"print">> }
    \cup { <<g, l, 0, 0>> : g \in {"addrowfrom", "addcolfrom", "goacolfrom"}, l \in L } \cup { <<"resizefrom", r, c, 0, 0>> : r \in 1..MaxR, c \in 1..MaxC }
Bound(c) == /\ (c[1] \in {"addrow", "addrowd", "goarow", "addrowfrom"} => R < MaxR \/ HasLabel(rl, c[2])) /\ (c[1] \in {"addcol", "addcold", "goacol", "addcolfrom", "goacolfrom"} => C < MaxC \/ HasLabel(cl, c[2]))
            /\ (c[1] \in {"lget", "lset"} => (R < MaxR \/ HasLabel(rl, c[2])) /\ (C < MaxC \/ HasLabel(cl, c[3])))
MCInit == Init /\ hist = <<>>
MCNext == \/ hist = <<>> /\ \E r \in 0..1, c \in 0..1 : LET x == <<"new", r, c>> IN Call(x) /\ hist' = <<x>>
          \/ hist # <<>> /\ Len(hist) < MaxLen /\ \E c \in Calls : Bound(c) /\ Call(c) /\ hist' = Append(hist, c)
View == <<rl, cl, cells, Len(hist)>>
Emit == PrintT("H " \o ToJson(hist'))
=============================================================================
