--------------------------- MODULE MC_FrameBuffer ---------------------------
EXTENDS FrameBuffer, TLC, Json
CONSTANTS MaxCount, MaxN, MaxCh
VARIABLE hist
L == { <<97>>, <<98>> }
Rows == { [i \in 1..Ch |-> IF i = 1 THEN count + 1 ELSE 50 + count] }
Calls == { <<"add", r>> : r \in Rows }
    \cup { <<g, f, c>> : g \in {"at", "cat", "get"}, f \in 0..MaxCount, c \in 0..MaxCh } \cup { <<"rev", f, c>> : f \in 0..MaxN, c \in 0..MaxCh }
    \cup { <<"last", c>> : c \in 0..MaxCh } \cup { <<"atset", f, c, 9>> : f \in 0..MaxCount, c \in 0..MaxCh } \cup { <<"lastset", 0, 8>>, <<"revset", 1, 0, 7>> }
    \cup { <<"interp", f, 0, p>> : f \in 0..MaxCount, p \in {0, 1, 4} }
    \cup { <<"resize", k, c, 3>> : k \in 1..MaxN, c \in 0..MaxCh } \cup { <<"resizef", k, 4>> : k \in 1..MaxN }
    \cup { <<"label", i, l>> : i \in 0..MaxCh, l \in L } \cup { <<"find", l>> : l \in L }
    \cup { <<g, l>> : g \in {"addch", "faddch"}, l \in L }
Written == Cardinality({ i \in DOMAIN hist : hist[i][1] \in {"atset", "lastset", "revset"} })
MCInit == Init /\ hist = <<>>
MCNext == \/ hist = <<>> /\ \E c \in 0..MaxCh, k \in 1..MaxN : LET x == <<"new", c, k>> IN Call(x) /\ hist' = <<x>>
          \/ hist # <<>> /\ \E c \in Calls : /\ (c[1] = "add" => count < MaxCount) /\ (c[1] \in {"addch", "faddch"} => Ch < MaxCh)
                                             /\ (c[1] \in {"atset", "lastset", "revset"} => Written < 1)
                                             /\ Call(c) /\ hist' = Append(hist, c)
View == <<n, lab, frames, count, hist = <<>>, Written>>
Emit == PrintT("H " \o ToJson(hist'))
=============================================================================
