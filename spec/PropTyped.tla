----------------------------- MODULE PropTyped -----------------------------
(* Typed values in the children of a property node. A value is a pair       *)
(* <<kind, v>>; v is whatever stands for it: numerals for integers of any   *)
(* width, 64ths for reals, sequences for lists, vectors and quaternions.    *)
EXTENDS Tree
VARIABLES store,      \* sequence of <<key, kind, value>>
          res
vars == <<store, res>>
Init == store = <<>> /\ res = Ok
Pos(k) == First(store, LAMBDA e : e[1] = k)
Keep(r) == res' = r /\ UNCHANGED store
Put(k, kind, v) == store' = (LET i == Pos(k) IN IF i = 0 THEN Append(store, <<k, kind, v>>) ELSE Replace(store, i, <<k, kind, v>>)) /\ res' = Ok
\* member names and the keys they stand for: underscores at the ends and a leading m_ are not part of the key
KeyOf(n) == CASE n = "alpha" -> <<97, 108, 112, 104, 97>> [] n = "beta_" -> <<98, 101, 116, 97>> [] n = "m_gamma" -> <<103, 97, 109, 109, 97>>
              [] n = "o.delta_x_" -> <<111, 46, 100, 101, 108, 116, 97, 95, 120>> [] n = "m_eps__" -> <<101, 112, 115>>
KindOf(n) == CASE n = "alpha" -> "int" [] n = "beta_" -> "double" [] n = "m_gamma" -> "str" [] n = "o.delta_x_" -> "vec3" [] n = "m_eps__" -> "vint"
\* what can be read from a node as a value of this kind: only what was stored as one
Fits(kind, i) == IF i = 0 THEN TRUE ELSE store[i][2] = kind
FirstOf(ks) == LET i == First(ks, LAMBDA k : Pos(k) # 0) IN IF i = 0 THEN 0 ELSE Pos(ks[i])
Read(kind, i, none) == (Fits(kind, i) = TRUE) /\ Keep(IF i = 0 THEN none ELSE OkV(store[i][3]))
\* ----------------------------------------------------------- hand-written nodes
\* reals in 64ths: text with an optional sign, digits, optionally a fraction that is a multiple of 1/64 with at most six decimals
RECURSIVE NumOf(_)
NumOf(d) == IF d = <<>> THEN 0 ELSE 10 * NumOf(Front(d)) + Last(d) - 48
Sixty4(s) == LET neg == s # <<>> /\ s[1] = 45
                 t == IF neg THEN Tail(s) ELSE s
                 p == FirstIn(t, {46}, 1)
                 w == NumOf(SubSeq(t, 1, p - 1))
                 f == SubSeq(t, p + 1, Len(t))
                 x == w * 64 + ((NumOf(f \o Fill(6 - Len(f), 48)) \div 125) * 64) \div 8000
             IN IF neg THEN -x ELSE x
X == <<120>> Y == <<121>> Z == <<122>>
Listed == {"vint", "vlong", "vstr", "vdouble", "vvec3", "vvint"}
Names(kind) == IF kind = "quat" THEN <<<<119>>, X, Y, Z>> ELSE <<X, Y, Z>>        \* vec3, vec3f, quat
Part(n, k) == LET i == FindKey(n, k) IN IF i = 0 THEN 0 ELSE Sixty4(Val(Child(n, i)))
Vec3Of(n) == IF Val(n) # <<>> THEN LET w == Split(Val(n), {32}) IN <<Sixty4(w[1]), Sixty4(w[2]), Sixty4(w[3])>> ELSE <<Part(n, X), Part(n, Y), Part(n, Z)>>
MINS == {<<109, 105, 110>>, <<108, 111, 119, 101, 114>>}
MAXS == {<<109, 97, 120>>, <<117, 112, 112, 101, 114>>}
MIN == <<109, 105, 110>> LOWER == <<108, 111, 119, 101, 114>> MAX == <<109, 97, 120>> UPPER == <<117, 112, 112, 101, 114>>
Side(n, a, b, none) == LET i == FindKey(n, a) j == FindKey(n, b) IN IF i # 0 THEN <<Sixty4(Val(Child(n, i)))>> ELSE IF j # 0 THEN <<Sixty4(Val(Child(n, j)))>> ELSE none
\* bounds: <<low>>, <<high>>, with <<>> for the extreme of the type
BoundsOf(n) == IF Val(n) # <<>>
               THEN LET p == FindText(Val(n), <<46, 46>>, 1) IN
                    IF p = 0 THEN <<<<Sixty4(Val(n))>>, <<Sixty4(Val(n))>>>>
                    ELSE <<<<Sixty4(TrimSpace(SubSeq(Val(n), 1, p - 1)))>>, <<Sixty4(TrimSpace(SubSeq(Val(n), p + 2, Len(Val(n)))))>>>>
               ELSE <<Side(n, MIN, LOWER, <<>>), Side(n, MAX, UPPER, <<>>)>>
Call(c) ==
  \/ c[1] \in {"set", "assign"} /\ Put(c[2], c[3], c[4])
  \/ c[1] = "push" /\ store' = Append(store, <<c[2], c[3], c[4]>>) /\ res' = Ok
  \/ c[1] = "setlit" /\ Put(c[2], "str", <<108, 105, 116, 32, 49>>)                       \* a string literal
  \/ c[1] = "get" /\ Read(c[3], Pos(c[2]), Err)
  \/ c[1] = "getdef" /\ Read(c[3], Pos(c[2]), OkV(c[4]))
  \/ c[1] = "getany" /\ Read(c[3], FirstOf(c[2]), Err)
  \/ c[1] = "getanydef" /\ Read(c[3], FirstOf(c[2]), OkV(c[4]))
  \/ c[1] = "init" /\ Read(KindOf(c[2]), Pos(KeyOf(c[2])), OkV(c[3]))                      \* through the macros
  \/ c[1] = "initreq" /\ Read(KindOf(c[2]), Pos(KeyOf(c[2])), Err)
  \/ c[1] = "initnamed" /\ Read(KindOf(c[2]), Pos(c[3]), OkV(c[4]))
  \/ c[1] = "initnamedreq" /\ Read(KindOf(c[2]), Pos(c[3]), Err)
  \/ c[1] = "setprop" /\ Put(KeyOf(c[2]), KindOf(c[2]), c[3])
  \/ c[1] = "setpropnamed" /\ Put(c[3], KindOf(c[2]), c[4])
  \/ c[1] = "copy" /\ Keep(Ok)                                                             \* continue with a copy of the node
  \/ c[1] = "clear" /\ store' = <<>> /\ res' = Ok
  \/ c[1] = "has" /\ Keep(OkV(B(Pos(c[2]) # 0)))
  \* the elements of a list are the children item0, item1, ... and the components of a vector or quaternion the children x, y, z and w
  \/ c[1] = "elem" /\ (LET i == Pos(c[2]) IN (c[3] \in Listed /\ Fits(c[3], i)) = TRUE /\ Keep(IF i = 0 THEN Err ELSE IF c[4] < Len(store[i][3]) THEN OkV(store[i][3][c[4] + 1]) ELSE Err))
  \/ c[1] = "part" /\ (LET i == Pos(c[2]) j == First(Names(c[3]), LAMBDA n : n = c[4]) IN Fits(c[3], i) = TRUE /\ Keep(IF i = 0 \/ j = 0 THEN Err ELSE OkV(store[i][3][j])))
  \/ c[1] = "vec3of" /\ Keep(OkV(Vec3Of(c[2])))
  \/ c[1] = "boundsof" /\ Keep(IF Val(c[2]) = <<>> /\ Kids(c[2]) = <<>> THEN Err ELSE OkV(BoundsOf(c[2])))
Observed == store'          \* every child, read as the kind it was last written as
-----------------------------------------------------------------------------
\* a value set is the value read back, and reading changes nothing
Kinds == {"short", "int", "uint", "long", "ulong", "llong", "str", "bool", "enum", "char", "double", "float", "path", "vec3", "vec3f", "quat", "tf", "vint", "vlong", "vstr", "vdouble", "vvec3", "vvint", "node"}
=============================================================================
