----------------------------- MODULE MC_Factory -----------------------------
EXTENDS Factory, TLC, Json
CONSTANTS MaxReg
VARIABLE hist
Names == { <<66>>, <<97>>, <<>> }          \* "B" is the own name of a class
Classes == { <<65>>, <<66>> }
Calls == { <<"reg", f, k, n>> : f \in {1, 3}, k \in Classes, n \in Names } \cup { <<"regd", f, k>> : f \in {1, 2, 3}, k \in Classes }
    \cup { <<g, f, n, 5, <<120>>>> : g \in {"create", "op", "index", "try"}, f \in Facs, n \in Names \cup Classes }
    \cup { <<"has", f, n>> : f \in Facs, n \in Names } \cup { <<"empty", f>> : f \in Facs } \cup { <<"copy", 2, 1>>, <<"new", 1>> }
Total == Len(reg[1]) + Len(reg[2]) + Len(reg[3])
MCInit == Init /\ hist = <<>>
MCNext == \E c \in Calls : Call(c) /\ Total' <= MaxReg /\ hist' = Append(hist, c)
View == reg
Emit == PrintT("H " \o ToJson(hist'))
=============================================================================
