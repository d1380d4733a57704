----------------------------- MODULE MC_FlagSet -----------------------------
EXTENDS FlagSet, TLC, Json
CONSTANTS Flags, Width
VARIABLE hist
L == { <<>> } \cup { <<a>> : a \in Flags } \cup { <<a, b>> : a \in Flags, b \in Flags }
Calls == { <<g, i, x>> : g \in {"set", "tset", "tclear"}, i \in 1..2, x \in Flags }
    \cup { <<g, i, x, b>> : g \in {"setv", "tsetv"}, i \in 1..2, x \in Flags, b \in 0..1 }
    \cup { <<g, i, l>> : g \in {"setl", "clearl", "newl"}, i \in 1..2, l \in L }
    \cup { <<g, i>> : g \in {"clear", "any"}, i \in 1..2 } \cup { <<g, i, j>> : g \in {"copy", "copyc"}, i \in 1..2, j \in 1..2 }
MCInit == Init /\ hist = <<>>
MCNext == IF hist = <<>> THEN LET c == <<"width", Width>> IN Call(c) /\ hist' = <<c>>
          ELSE \E c \in Calls : Call(c) /\ hist' = Append(hist, c)
View == <<f, width, hist = <<>>>>
Emit == PrintT("H " \o ToJson(hist'))
=============================================================================
