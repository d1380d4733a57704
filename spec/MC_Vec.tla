------------------------------ MODULE MC_Vec ------------------------------
EXTENDS Vec, TLC, Json
CONSTANT N
VARIABLE last
I == -N..N
V3 == { <<x, y, z>> : x \in I, y \in I, z \in I }
V4 == { <<x, y, z, w>> : x \in {-1, 2}, y \in {0, 3}, z \in {-2, 1}, w \in {-4, 0, 5} }
A3 == { <<1, 2, 3>>, <<0, 0, 0>>, <<-2, 0, 5>>, <<0, -7, 0>>, <<4, 4, -1>> }
Free == { <<f, a, b>> : f \in {"sum", "mask", "dot", "cross", "distance", "equal", "set"}, a \in V3, b \in A3 } \cup { <<f, b, a>> : f \in {"sum", "cross"}, a \in V3, b \in A3 } \cup { <<"equal", a, a>> : a \in V3 }
   \cup { <<f, a>> : f \in {"neg", "length", "normalize", "print", "read"}, a \in V3 } \cup { <<f, s, a>> : f \in {"scale", "divide"}, s \in {-3, 1, 2, 7}, a \in V3 }
   \cup { <<"sum", a, b>> : a \in V4, b \in V4 } \cup { <<f, a>> : f \in {"neg", "length"}, a \in V4 } \cup { <<f, s, a>> : f \in {"scale", "divide"}, s \in {-3, 0, 2}, a \in V4 }
   \cup { <<"polar", r, i, z>> : r \in 0..3, i \in -5..5, z \in -5..5 } \cup { <<"unit", i, n>> : i \in 1..4, n \in {3, 4} } \cup { <<"negunit", i>> : i \in 1..3 } \cup { <<"uniform", v>> : v \in I } \cup { <<"zero", n>> : n \in {3, 4} }
MCInit == Init /\ last = <<>>
MCNext == last = <<>> /\ \E c \in Free : Call(c) /\ last' = c
Emit == PrintT("C " \o ToJson(last'))
\* the laws of vector algebra
Laws == last # <<>> /\ last[1] = "cross" => LET a == last[2] b == last[3] x == Cross(a, b) IN
   /\ Dot(x, a) = 0 /\ Dot(x, b) = 0 /\ x = Neg(Cross(b, a)) /\ Dot(a, b) = Dot(b, a)
   /\ Dot(x, x) = Dot(a, a) * Dot(b, b) - Dot(a, b) * Dot(a, b) /\ Sub(Add(a, b), b) = a /\ Add(a, Neg(b)) = Sub(a, b)
=============================================================================
