---------------------------- MODULE MC_CircDeque ----------------------------
EXTENDS CircDeque, TLC, Json
CONSTANTS MaxSize, MaxCap, Vals
VARIABLES hist, fr    \* fr: where the front is in a ring of the capacity, so that every wrap-around is explored
MCInit == Init /\ hist = <<>> /\ fr = 0
Calls == { <<f>> : f \in {"popb", "popf", "back", "cback", "front", "cfront", "clear", "copy"} }
    \cup { <<f, x>> : f \in {"pushb", "pushf", "setb", "setf"}, x \in Vals }
    \cup { <<f, n>> : f \in {"get", "iter"}, n \in 0..(MaxSize - 1) } \cup { <<"set", n, 9>> : n \in 0..(MaxSize - 1) }
    \cup { <<"reserve", n>> : n \in {0, 2, MaxCap} } \cup { <<"cap", n>> : n \in 0..MaxCap }
Moved(c) == CASE low = 0 -> 0
              [] c[1] = "popf" /\ q # <<>> -> (fr + 1) % low
              [] c[1] = "pushf" /\ Len(q) < low -> (fr + low - 1) % low
              [] c[1] = "clear" -> 0
              [] c[1] = "reserve" /\ c[2] > low -> 0
              [] OTHER -> fr
MCNext == \/ hist = <<>> /\ \E n \in 0..3 : LET c == <<"new", n>> IN Call(c) /\ hist' = <<c>> /\ fr' = 0
          \/ hist # <<>> /\ \E c \in Calls : ~(c[1] \in {"pushb", "pushf"} /\ Len(q) >= MaxSize) /\ Call(c) /\ hist' = Append(hist, c) /\ fr' = Moved(c)
View == <<q, low, fr, hist = <<>>>>
Emit == PrintT("H " \o ToJson(hist'))
=============================================================================
