---------------------------- MODULE MC_PropTyped ----------------------------
EXTENDS PropTyped, TLC, Json
CONSTANTS MaxSize, Core, Texts64
VARIABLE hist
ka == <<97>>
kb == <<98>>
Ns == { <<48>>, <<45, 49>> }                                   \* "0" "-1"
Big == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>
Sample(k) == CASE k \in {"short", "int"} -> { <<45, 49>>, <<55>> }
  [] k = "uint" -> { <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>> }
  [] k \in {"long", "llong"} -> { Big, <<45>> \o Big }
  [] k = "ulong" -> { Big }
  [] k \in {"str", "path"} -> { <<>>, <<97, 32, 98>> }
  [] k = "bool" -> {0, 1} [] k = "enum" -> {-3, 1000} [] k = "char" -> {97, 123}
  [] k \in {"double", "float"} -> {-1, 160}
  [] k \in {"vec3", "vec3f"} -> { <<1, -2, 192>>, <<0, 0, 0>> }
  [] k = "quat" -> { <<32, -32, 32, 32>> } [] k = "tf" -> { <<<<64, 0, 3>>, <<0, 64, 0, 0>>>> }
  [] k = "vint" -> { <<>>, <<<<49>>, <<45, 50>>>> } [] k = "vlong" -> { <<Big>> }
  [] k = "vstr" -> { <<<<97>>, <<>>, <<98, 32>>>> } [] k = "vdouble" -> { <<1, 2>> }
  [] k = "vvec3" -> { <<<<1, 2, 3>>, <<4, 5, 6>>>> } [] k = "vvint" -> { <<<<>>, <<<<49>>, <<50>>>>>> }
  [] k = "node" -> { <<<<118>>, <<<<<<97>>, NoNode>>>>>> }
Members == {"alpha", "beta_", "m_gamma", "o.delta_x_", "m_eps__"}
CoreOnly == \A i \in DOMAIN store : store[i][2] \in Core
Kind(k) == UNION { { <<f, key, k, v>> : f \in {"set", "assign", "push"}, v \in Sample(k) } : key \in {ka, kb} }
Dones == UNION { { <<"get", key, k>> : key \in {ka, kb} } \cup { <<"getdef", key, k, v>> : key \in {ka, kb}, v \in Sample(k) }
              \cup { <<"getany", ks, k>> : ks \in Lists({ka, kb}, 2) } \cup { <<"getanydef", ks, k, v>> : ks \in Lists({ka, kb}, 2), v \in Sample(k) } : k \in Kinds }
Pieces == { <<"elem", ka, k, i>> : k \in Listed, i \in 0..2 } \cup { <<"part", ka, k, n>> : k \in {"vec3", "vec3f", "quat"}, n \in {X, Y, Z, <<119>>} }
Rest == { <<"copy">>, <<"clear">>, <<"setlit", ka>>, <<"has", ka>>, <<"has", kb>> }
   \cup UNION { { <<"init", m, v>> : v \in Sample(KindOf(m)) } \cup { <<"initreq", m>> } \cup { <<"initnamed", m, ka, v>> : v \in Sample(KindOf(m)) } \cup { <<"initnamedreq", m, ka>> }
             \cup { <<"setprop", m, v>> : v \in Sample(KindOf(m)) } \cup { <<"setpropnamed", m, ka, v>> : v \in Sample(KindOf(m)) } : m \in Members }
Nums == Texts64
Tree3(P) == <<<<>>, P>>
Sides == Lists({ <<k, Leaf(n)>> : k \in MINS \cup MAXS \cup {X}, n \in {<<50>>, <<45, 49>>} }, 2)
SP == <<32>>
Dyadic == { <<49>>, <<45, 50>>, <<48, 46, 53>>, <<51, 46, 48, 49, 53, 54, 50, 53>>, <<45, 48, 46, 50, 53>>, <<49, 50, 48>> }
Ones == { <<"boundsof", Leaf(v), 0>> : v \in { n \o s \o <<46, 46>> \o s \o m : n \in Nums, m \in Nums, s \in {<<>>, SP} } \cup Nums }
   \cup { <<"boundsof", Leaf(v), 1>> : v \in { n \o <<46, 46>> \o m : n \in {<<49>>, <<45, 50>>}, m \in {<<55>>, <<45, 49>>} } }
   \cup { <<"boundsof", Tree3(p), d>> : p \in Sides, d \in {0, 1} } \cup { <<"boundsof", Leaf(<<>>), 0>> }
   \cup { <<"vec3of", Leaf(a \o SP \o b \o s \o c), 0>> : a \in Nums, b \in Nums, c \in {<<49>>, <<45, 50>>}, s \in {SP, <<32, 32>>} }
   \cup { <<"vec3of", Tree3(p), d>> : p \in Lists({ <<k, Leaf(n)>> : k \in {X, Y, Z}, n \in {<<49>>, <<45, 48, 46, 53>>} }, 3), d \in {0, 1} }
IsPlain == IF hist = <<>> THEN TRUE ELSE hist[1][1] \notin {"boundsof", "vec3of"}
\* reads that find something, or nothing of a few kinds
Useful(c) == LET ks == IF c[1] \in {"get", "getdef"} THEN <<c[2]>> ELSE c[2] i == FirstOf(ks) IN IF i = 0 THEN c[3] \in Core ELSE store[i][2] = c[3]
MCInit == Init /\ hist = <<>>
MCNext == \/ IsPlain /\ \E k \in Kinds : \E c \in Kind(k) :
                /\ (IF store = <<>> THEN c[2] = ka ELSE IF CoreOnly /\ k \in Core THEN Len(store) < MaxSize \/ (c[1] # "push" /\ Pos(c[2]) # 0) ELSE Len(store) = 1 /\ c[1] # "push" /\ c[2] = ka)
                /\ Call(c) /\ hist' = Append(hist, c)
          \/ IsPlain /\ \E c \in Dones \cup Rest : (IF c \in Rest THEN Len(store) <= 1 /\ (IF c[1] \in {"setprop", "setpropnamed"} THEN store = <<>> \/ Pos(ka) # 0 ELSE TRUE) ELSE Useful(c) = TRUE) /\ Call(c) /\ hist' = Append(hist, c)
          \/ IsPlain /\ \E c \in Pieces : Len(store) <= 1 /\ (IF Pos(ka) = 0 THEN c[3] \in {"vint", "quat"} ELSE TRUE) /\ Call(c) /\ hist' = Append(hist, c)
          \/ hist = <<>> /\ \E c \in Ones : Call(c) /\ hist' = <<c>>
Small == Len(store) <= MaxSize
View == <<store, IF IsPlain THEN <<>> ELSE hist>>
Emit == PrintT("H " \o ToJson(hist'))
=============================================================================
