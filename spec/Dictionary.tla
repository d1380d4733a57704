----------------------------- MODULE Dictionary -----------------------------
(* flut::dictionary and flut::lookup                                        *)
EXTENDS Base
VARIABLES data,   \* sequence of <<element, name>>
          res
vars == <<data, res>>
Init == data = <<>> /\ res = Ok
ByName(s) == First(data, LAMBDA e : e[2] = s)
ByElem(x) == First(data, LAMBDA e : e[1] = x)
Call(c) ==
  \/ c[1] \in {"new", "make"} /\ data' = c[2] /\ res' = Ok
  \/ /\ UNCHANGED data
     /\ \/ c[1] = "name"  /\ res' = (IF ByElem(c[2]) = 0 THEN Err ELSE OkV(data[ByElem(c[2])][2]))
        \/ c[1] = "elem"  /\ res' = (IF ByName(c[2]) = 0 THEN Err ELSE OkV(data[ByName(c[2])][1]))
        \/ c[1] = "elemd" /\ res' = (IF ByName(c[2]) = 0 THEN OkV(c[3]) ELSE OkV(data[ByName(c[2])][1]))
        \/ c[1] = "lookup" /\ res' = (IF ByName(c[2]) = 0 THEN Err ELSE OkV(data[ByName(c[2])][1]))
        \/ c[1] = "copy" /\ res' = Ok
Observed == Len(data')
-----------------------------------------------------------------------------
\* when names and elements are unique, looking up is an inverse in both directions
Inverse == (\A i, j \in DOMAIN data : i # j => data[i][1] # data[j][1] /\ data[i][2] # data[j][2])
           => \A i \in DOMAIN data : ByName(data[ByElem(data[i][1])][2]) = i
=============================================================================
