---------------------------- MODULE MC_Rotation ----------------------------
EXTENDS Rotation, TLC, Json
VARIABLE last
Q == { <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<1, 0, 1, 0>>, <<1, 1, 1, 1>>, <<2, -1, 0, 1>>, <<0, 1, -2, 1>> }
V == { <<1, 0, 0>>, <<0, 1, 0>>, <<2, -3, 5>> }
P == { <<0, 0, 0>>, <<3, -1, 2>> }
T == { <<k, p, q>> : k \in {"fwd", "inv"}, p \in P, q \in Q }
F == { <<k, q>> : k \in {"fwd", "inv"}, q \in Q }
A == { <<1, 0>>, <<1, 1>>, <<2, -1>>, <<0, 1>> }
N == { <<1, 0, 0>>, <<0, 2, 0>>, <<1, 1, 0>>, <<-1, 0, 0>>, <<1, -2, 3>> }
Orders == { <<"x", "y", "z">>, <<"x", "z", "y">>, <<"y", "x", "z">>, <<"y", "z", "x">>, <<"z", "x", "y">>, <<"z", "y", "x">> }
D(q) == Norm(q)
Calls == { <<f, <<a, b>>, v, D(a[2]) * D(b[2])>> : f \in {"product", "turns"}, a \in F, b \in F, v \in V }
    \cup { <<f, <<a>>, v, D(a[3])>> : f \in {"composed", "applied", "composedinv"}, a \in T, v \in V }
    \cup { <<f, <<a, b>>, <<2, -3, 5>>, D(a[3]) * D(b[3])>> : f \in {"composed", "applied", "composedinv"}, a \in T, b \in T }
    \cup { <<f, q, v, D(q)>> : f \in {"axes", "axisangle", "axisanglerad", "toaxisangle", "torotvec"}, q \in Q \cup { <<-1, 1, 1, 1>>, <<-3, 0, 0, 1>>, <<1, -1, 2, 3>>, <<0, 0, 0, -1>> }, v \in V }
    \cup { <<f, o, x, y, z, v, D(Single("x", x)) * D(Single("y", y)) * D(Single("z", z))>> : f \in {"euler", "eulervec"}, o \in Orders, x \in A, y \in A, z \in A, v \in { <<2, -3, 5>> } }
    \cup { <<"single", k, a, v, D(Single(k, a))>> : k \in {"x", "y", "z"}, a \in A \cup { <<-1, 2>>, <<-3, -1>> }, v \in V }
    \cup { <<"directions", a, b>> : a \in N, b \in N \cup { Scale(-1, a) : a \in N } \cup { Scale(-3, a) : a \in N } }
    \cup { <<"between", p, q, v, D(p) * D(q)>> : p \in Q, q \in Q, v \in V }
    \cup { <<"unit", q>> : q \in Q } \cup { <<"identity", v>> : v \in V }
MCInit == Init /\ last = <<>>
MCNext == last = <<>> /\ \E c \in Calls : Call(c) /\ last' = c
Emit == PrintT("C " \o ToJson(last'))
\* the group laws, on the specification itself
Homomorphism == (last # <<>> /\ last[1] = "between") => Turn(Times(last[2], last[3]), last[4]) = Turn(last[2], Turn(last[3], last[4]))
Isometry == (last # <<>> /\ last[1] = "axes") => Dot(last[3], last[3]) * Norm(last[2]) * Norm(last[2]) = Dot(Turn(last[2], last[3]), Turn(last[2], last[3]))
Undone == (last # <<>> /\ last[1] = "axes") => Turn(Conj(last[2]), Turn(last[2], last[3])) = Scale(Norm(last[2]) * Norm(last[2]), last[3])
UndoneT == (last # <<>> /\ last[1] = "composed" /\ Len(last[2]) = 1) =>
             LET s == last[2][1] r == Move(<<IF s[1] = "inv" THEN "fwd" ELSE "inv", s[2], s[3]>>, Move(s, Whole(last[3]))) IN r[1] = Scale(r[2], last[3])
=============================================================================
