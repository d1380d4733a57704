-------------------------------- MODULE Ini --------------------------------
(* ini files: lines of 'key = value', '[group]', comments and blanks        *)
EXTENDS Tree
VARIABLES files,      \* file number -> <<tree>>, or <<>> when it does not exist
          res
vars == <<files, res>>
Names == 1..2
Init == files = [i \in Names |-> <<>>] /\ res = Ok
Keep(r) == res' = r /\ UNCHANGED files
\* ---------------------------------------------------------------- reading
HASH == 35
IsGroup(l) == Len(l) > 2 /\ l[1] = 91 /\ l[Len(l)] = 93
NoGroup == 0
\* state while reading: <<error or not, the nodes so far, whether a group is open>>; the open group is the last node
ReadLine(s, line) ==
  LET l == TrimSpace(line) kv == KeyValue(l, {61}) nodes == s[2] IN
  IF s[1] \/ l = <<>> THEN s
  ELSE IF l[1] = HASH THEN s
  ELSE IF IsGroup(l) THEN <<FALSE, Append(nodes, <<SubSeq(l, 2, Len(l) - 1), NoNode>>), TRUE>>
  ELSE IF 61 \notin Range(l) THEN <<TRUE, nodes, s[3]>>
  ELSE IF ~s[3] THEN <<FALSE, Kids(SetKey(<<<<>>, nodes>>, kv[1], Leaf(kv[2]))), FALSE>>
  ELSE LET g == Last(nodes) IN <<FALSE, Replace(nodes, Len(nodes), <<g[1], SetKey(g[2], kv[1], Leaf(kv[2]))>>), TRUE>>
ReadLines(ls) == FoldSeq(ReadLine, <<FALSE, <<>>, FALSE>>, ls)
Loaded(ls) == LET r == ReadLines(ls) IN IF r[1] THEN Err ELSE OkV(<<<<>>, r[2]>>)
\* ---------------------------------------------------------------- writing
Line(s) == TrimSpace(s) = s /\ \A i \in DOMAIN s : s[i] \notin {0, NL, CR}
KeyOk(k) == Line(k) /\ k # <<>> /\ k[1] \notin {HASH, 91} /\ 61 \notin Range(k)
Distinct(ks) == \A i, j \in DOMAIN ks : i # j => ks[i][1] # ks[j][1]
ItemOk(k) == KeyOk(k[1]) /\ Line(Val(k[2])) /\ Kids(k[2]) = <<>>
GroupNameOk(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \notin {0, NL, CR}
\* values first, then groups of values
Writable(n) == /\ Val(n) = <<>> /\ Distinct(SelectSeq(Kids(n), LAMBDA k : Kids(k[2]) = <<>>))
               /\ \A i \in DOMAIN Kids(n) : LET k == Kids(n)[i] IN
                    IF Kids(k[2]) = <<>> THEN ItemOk(k) /\ Val(k[2]) # <<>> /\ (i > 1 => Kids(Kids(n)[i - 1][2]) = <<>>)
                    ELSE GroupNameOk(k[1]) /\ Val(k[2]) = <<>> /\ Distinct(Kids(k[2])) /\ \A j \in DOMAIN Kids(k[2]) : ItemOk(Kids(k[2])[j])
Call(c) ==
  \/ c[1] = "save" /\ (IF Writable(c[3]) THEN TRUE ELSE FALSE) /\ files' = [files EXCEPT ![c[2]] = <<c[3]>>] /\ res' = Ok
  \/ c[1] = "load" /\ Keep(IF files[c[2]] = <<>> THEN Err ELSE OkV(files[c[2]][1]))
  \/ c[1] = "trip" /\ (IF Writable(c[2]) THEN TRUE ELSE FALSE) /\ Keep(OkV(c[2]))
  \/ c[1] = "lines" /\ Keep(Loaded(c[2]))                              \* c[3]: the line ending
Observed == [i \in Names |-> B(files'[i] # <<>>)]
=============================================================================
