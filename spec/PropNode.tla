------------------------------ MODULE PropNode ------------------------------
(* two property trees and everything prop_node can do with them             *)
(* c = <<operation, tree, place, ...>>; operations with a second node carry  *)
(* its tree and place after the key                                         *)
EXTENDS Tree
VARIABLES t,     \* tree number -> root node
          res
vars == <<t, res>>
Trees == 1..2
Init == t = [i \in Trees |-> NoNode] /\ res = Ok
Here(c) == At(t[c[2]], c[3])
Become(c, n, r) == t' = [t EXCEPT ![c[2]] = PutAt(@, c[3], n)] /\ res' = r
Keep(r) == res' = r /\ UNCHANGED t
Nth(n, i) == Child(n, i + 1)
RECURSIVE FirstOfKeys(_, _)
FirstOfKeys(n, ks) == IF ks = <<>> THEN 0 ELSE LET i == FindKey(n, ks[1]) IN IF i # 0 THEN i ELSE FirstOfKeys(n, Tail(ks))
Found(n, i, other) == IF i = 0 THEN other ELSE OkV(Val(Child(n, i)))
FoundNode(n, i, other) == IF i = 0 THEN other ELSE OkV(Child(n, i))
\* the value of a node and of all its children
Update(c) == LET n == Here(c) IN
  \/ c[1] = "set"     /\ LET m == SetKey(n, c[4], Leaf(c[5])) IN Become(c, m, OkV(m))                       \* set( key, text )
  \/ c[1] = "setnum"  /\ LET m == SetKey(n, c[4], Leaf(IntText(c[5]))) IN Become(c, m, OkV(m))
  \/ c[1] = "setval"  /\ Become(c, <<c[4], Kids(n)>>, Ok)
  \/ c[1] = "assigns" /\ Become(c, Leaf(c[4]), Ok)
  \/ c[1] = "push"    /\ Become(c, AddKid(n, c[4], NoNode), OkV(Len(Kids(n))))
  \/ c[1] = "pushv"   /\ Become(c, AddKid(n, c[4], Leaf(c[5])), OkV(Len(Kids(n))))
  \/ c[1] = "clear"   /\ Become(c, NoNode, Ok)
  \/ c[1] = "erase"   /\ (IF c[4] < Len(Kids(n)) THEN Become(c, <<Val(n), RemoveAt(Kids(n), c[4] + 1)>>, OkV(c[4])) ELSE Keep(None))
  \/ c[1] = "setd"    /\ Become(c, SetParts(n, Parts(c[4], c[6]), Leaf(c[5])), Ok)                         \* key, value, delimiter
  \/ c[1] = "setdd"   /\ Become(c, SetParts(n, Parts(c[4], 46), Leaf(c[5])), Ok)
  \/ c[1] \in {"goa", "index"} /\ LET i == FindKey(n, c[4]) IN                                              \* get_or_add_child, operator[]
       Become(c, IF i = 0 THEN AddKid(n, c[4], NoNode) ELSE n, OkV(IF i = 0 THEN NoNode ELSE Child(n, i)))
  \/ c[1] = "reserve" /\ Keep(Ok)
\* operations with another node o = tree c[5], place c[6]
Other(c) == At(t[c[5]], c[6])
Pair(c) == LET n == Here(c) o == Other(c) IN
  \/ c[1] = "assign" /\ Become(c, o, Ok)
  \/ c[1] = "setn"   /\ Become(c, o, Ok)                                        \* set( node )
  \/ c[1] = "setk"   /\ Become(c, SetKey(n, c[4], o), Ok)                       \* set( key, node )
  \/ c[1] = "pushn"  /\ Become(c, AddKid(n, c[4], o), OkV(Len(Kids(n))))
  \/ c[1] = "copyc"  /\ Become(c, o, Ok)                                        \* through a copy constructed from a reference
  \/ c[1] = "copyp"  /\ Become(c, o, Ok)                                        \* and from a pointer
  \/ c[1] = "merge"  /\ Become(c, Merge(n, o, c[7] = 1), Ok)
  \/ c[1] = "eq"     /\ Keep(OkV(B(n = o)))
  \/ c[1] = "trychilddef" /\ Keep(FoundNode(n, FindKey(n, c[4]), OkV(o)))
  \/ /\ c[1] = "insert"                                                          \* children [c[8], c[9]) of o before child c[7]
     /\ IF c[7] <= Len(Kids(n)) /\ c[9] <= Len(Kids(o))
        THEN Become(c, <<Val(n), Upto(Kids(n), c[7]) \o SubSeq(Kids(o), c[8] + 1, c[9]) \o From(Kids(n), c[7] + 1)>>, OkV(c[7]))
        ELSE Keep(None)
\* operations that move from the root of the other tree, which is then cleared
Move(c) == LET n == Here(c) o == t[c[5]] IN
   /\ res' = Ok
   /\ t' = [t EXCEPT ![c[2]] = PutAt(@, c[3], CASE c[1] \in {"massign", "msetn", "mctor"} -> o [] c[1] = "mpush" -> AddKid(n, c[4], o)),
                     ![c[5]] = NoNode]
Read(c) == LET n == Here(c) IN Keep(
  CASE c[1] = "get"     -> Found(n, FindKey(n, c[4]), Err)
    [] c[1] = "getdef"  -> Found(n, FindKey(n, c[4]), OkV(c[5]))
    [] c[1] = "any"     -> Found(n, FirstOfKeys(n, c[4]), Err)
    [] c[1] = "anydef"  -> Found(n, FirstOfKeys(n, c[4]), OkV(c[5]))
    [] c[1] = "getd"    -> (LET f == FindParts(n, Parts(c[4], c[5])) IN IF f = <<>> THEN Err ELSE OkV(Val(f[1])))
    [] c[1] = "tryd"    -> (LET f == FindParts(n, Parts(c[4], c[5])) IN IF f = <<>> THEN None ELSE OkV(f[1]))
    [] c[1] \in {"child", "cchild", "cindex"} -> FoundNode(n, FindKey(n, c[4]), Err)
    [] c[1] \in {"trychild", "ctrychild"} -> FoundNode(n, FindKey(n, c[4]), None)
    [] c[1] \in {"nth", "cnth", "ith", "cith"} -> (IF c[4] < Len(Kids(n)) THEN OkV(Nth(n, c[4])) ELSE Err)
    [] c[1] = "key"     -> (IF c[4] < Len(Kids(n)) THEN OkV(Kids(n)[c[4] + 1][1]) ELSE Err)
    [] c[1] \in {"find", "cfind"} -> OkV(IF FindKey(n, c[4]) = 0 THEN Len(Kids(n)) ELSE FindKey(n, c[4]) - 1)
    [] c[1] = "info"    -> OkV(<<Len(Kids(n)), B(Val(n) # <<>>), B(n = NoNode)>>)
    [] c[1] = "hasval"  -> OkV(B(FindKey(n, c[4]) # 0 /\ Val(Child(n, FindKey(n, c[4]))) # <<>>))
    [] c[1] = "haskey"  -> OkV(B(FindKey(n, c[4]) # 0))
    [] c[1] = "value"   -> OkV(<<Val(n), Val(n)>>)                            \* get_value, get< string >
    [] c[1] = "select"  -> OkV(SelectKids(n, LAMBDA k : k = c[4]))
    [] c[1] = "selpat"  -> OkV(SelectKids(n, LAMBDA k : Matches(k, c[4])))
    [] c[1] = "values"  -> OkV([i \in DOMAIN Kids(n) |-> Val(Child(n, i))])   \* get< vector< string > >
    [] c[1] = "empty"   -> OkV(NoNode))                                       \* empty_prop_node
Updates == {"set", "setnum", "setval", "assigns", "push", "pushv", "clear", "erase", "setd", "setdd", "goa", "index", "reserve"}
Pairs   == {"assign", "setn", "setk", "pushn", "copyc", "copyp", "merge", "eq", "trychilddef", "insert"}
Moves   == {"massign", "msetn", "mctor", "mpush"}
Call(c) ==
  \/ c[1] = "load" /\ t' = [t EXCEPT ![c[2]] = c[3]] /\ res' = Ok           \* build a given tree
  \/ /\ c[1] # "load"
     /\ IF ~Exists(t[c[2]], c[3]) THEN Keep(None)
        ELSE IF c[1] \in Updates THEN Update(c)
        ELSE IF c[1] \in Pairs THEN (IF Exists(t[c[5]], c[6]) THEN Pair(c) ELSE Keep(None))
        ELSE IF c[1] \in Moves THEN Move(c)
        ELSE Read(c)
Observed == <<t'[1], t'[2]>>
-----------------------------------------------------------------------------
\* an operation on one tree leaves the other alone, unless it moves out of it
Independent == [][ \A i \in Trees : t'[i] = t[i] \/ \A j \in Trees \ {i} : t'[j] = t[j] \/ t'[j] = NoNode ]_vars
=============================================================================
