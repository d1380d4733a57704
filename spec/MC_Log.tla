------------------------------- MODULE MC_Log -------------------------------
EXTENDS Log, TLC, Json
CONSTANTS Levels, MsgLevels, Kinds1, Kinds2
VARIABLES hist, how
s == <<97, 37>>
Sinks == 1..2
KindsOf(i) == IF i = 1 THEN Kinds1 ELSE Kinds2
Admin == UNION { { <<"create", i, k, l>> : k \in KindsOf(i), l \in Levels } \cup { <<"createdef", i>>, <<"destroy", i>>, <<"remove", i>>, <<"add", i>> } \cup { <<"level", i, l>> : l \in Levels } : i \in Sinks }
   \cup { <<"global", l>> : l \in Levels }
Logs == { <<f, l, << <<"t", s>>, <<"n", -5>> >> >> : f \in {"message", "string", "stream"}, l \in MsgLevels } \cup { <<"named", l, << <<"t", s>> >> >> : l \in MsgLevels \ {7} }
   \cup { <<f, l, s, 7, <<10, 98>>>> : f \in {"messagef", "vstring"}, l \in MsgLevels } \cup { <<"namedf", l, s, -1, s>> : l \in MsgLevels \ {7} }
   \cup { <<"formatonly", l, <<120>>>> : l \in MsgLevels } \cup { <<"namedformat", l, <<120>>>> : l \in MsgLevels \ {7} }
   \cup { <<"mixed", l, s, 3>> : l \in MsgLevels } \cup { <<"namedmixed", l, s, 3>> : l \in MsgLevels \ {7} } \cup { <<"message", l, <<>>>> : l \in MsgLevels }
   \cup { <<"query">>, <<"vars", 1, -2>> } \cup { <<"test", l>> : l \in MsgLevels } \cup { <<"getlevel", i>> : i \in Sinks }
MCInit == Init /\ hist = <<>> /\ how = ""
MCNext == \/ \E c \in Admin : Call(c) /\ hist' = Append(hist, c) /\ how' = c[1]
          \/ \E c \in Logs : Call(c) /\ hist' = Append(hist, c) /\ how' = how
View == <<sinks, how>>
Emit == PrintT("H " \o ToJson(hist'))
Delivered == \A i \in Ids : got[i] # <<>> => Is(i)
=============================================================================
