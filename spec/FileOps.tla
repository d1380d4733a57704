------------------------------ MODULE FileOps ------------------------------
(* File operations on a small file tree.                                    *)
EXTENDS Text
VARIABLES fs,         \* set of <<path, content>>; a path is a sequence of names; content <<"dir">>, <<"file", bytes>> or <<"socket">>; the root folder <<>> is implicit
          cwd,        \* current folder
          limit,      \* the greatest size a file can get, -1: none
          res
vars == <<fs, cwd, limit, res>>
Init == fs = {} /\ cwd = <<>> /\ limit = -1 /\ res = Ok
\* ----------------------------------------------------------------- looking
Entry(p) == { e \in fs : e[1] = p }
What(p) == IF p = <<>> THEN <<"dir">> ELSE LET E == Entry(p) IN IF E = {} THEN <<"none">> ELSE (CHOOSE e \in E : TRUE)[2]
IsDir(p) == What(p)[1] = "dir"
IsFile(p) == What(p)[1] = "file"
Bytes(p) == What(p)[2]
DOT == <<46>>
DOTS == <<46, 46>>
RECURSIVE Walk(_, _)
\* where the parts cs lead from folder d: <<path>>, or <<>> when they pass through something that is not a folder
Walk(d, cs) == IF cs = <<>> THEN <<d>>
               ELSE IF ~(IsDir(d) = TRUE) THEN <<>>
               ELSE IF cs[1] = DOT THEN Walk(d, Tail(cs))
               ELSE IF cs[1] = DOTS THEN IF d = <<>> THEN <<>> ELSE Walk(Front(d), Tail(cs))
               ELSE Walk(Append(d, cs[1]), Tail(cs))
Place(t) == Walk(cwd, Split(t, {47}))
There(t) == Place(t) # <<>>
At(t) == Place(t)[1]
InsideTree(t) == \* no step above the root, a name at the end
  LET cs == Split(t, {47}) D[i \in 0..Len(cs)] == IF i = 0 THEN Len(cwd) ELSE D[i - 1] + (IF cs[i] = DOTS THEN -1 ELSE IF cs[i] = DOT THEN 0 ELSE 1)
  IN \A i \in 0..Len(cs) : D[i] >= 0
Put(p, content) == (fs \ Entry(p)) \cup { <<p, content>> }
\* ----------------------------------------------------------------- doing
Keep(r) == res' = r /\ UNCHANGED <<fs, cwd, limit>>
To(s, r) == fs' = s /\ res' = r /\ UNCHANGED <<cwd, limit>>
IsDirT(t) == IF There(t) THEN IsDir(At(t)) ELSE FALSE
IsFileT(t) == IF There(t) THEN IsFile(At(t)) ELSE FALSE
IsSocketT(t) == IF There(t) THEN What(At(t))[1] = "socket" ELSE FALSE
IsNoneT(t) == IF There(t) THEN What(At(t)) = <<"none">> /\ (IF At(t) = <<>> THEN TRUE ELSE IsDir(Front(At(t)))) ELSE FALSE
Fits(n) == limit < 0 \/ n <= limit
Copy(a, b, over) ==
  IF ~IsFileT(a) THEN Keep(OkV(0))
  ELSE IF IsDirT(b) \/ ~There(b) THEN Keep(OkV(0))
  ELSE IF IsFileT(b) /\ over = 0 THEN Keep(OkV(0))
  ELSE IF ~IsFileT(b) /\ ~IsNoneT(b) THEN Keep(OkV(0))
  ELSE IF Fits(Len(Bytes(At(a)))) THEN To(Put(At(b), What(At(a))), OkV(1))
  ELSE \E n \in 0..limit : To(Put(At(b), <<"file", Upto(Bytes(At(a)), n)>>), OkV(0))         \* writing fails part of the way: it says so
RECURSIVE WithFolders(_, _, _)
\* all missing folders along the parts
WithFolders(s, d, cs) == IF cs = <<>> THEN s ELSE LET e == Append(d, cs[1]) IN WithFolders(IF \E x \in s : x[1] = e THEN s ELSE s \cup { <<e, <<"dir">>>> }, e, Tail(cs))
RECURSIVE Blocked(_, _)
Blocked(d, cs) == IF cs = <<>> THEN FALSE ELSE LET e == Append(d, cs[1]) IN What(e)[1] \in {"file", "socket"} \/ Blocked(e, Tail(cs))
Parts(t) == SelectSeq(Split(t, {47}), LAMBDA n : n # DOT)
Plain(t) == LET cs == Split(t, {47}) IN cs # <<>> /\ cs[Len(cs)] # DOT /\ \A i \in DOMAIN cs : cs[i] # DOTS
Call(c) ==
  /\ (\A i \in 2..Len(c) : IF i = 2 \/ (c[1] = "copy" /\ i = 3) THEN (IF c[1] \in {"limit", "pwd", "home"} THEN TRUE ELSE InsideTree(c[i])) ELSE TRUE) = TRUE
  /\ \/ c[1] = "write" /\ Fits(Len(c[3])) /\ ~IsDirT(c[2]) /\ There(c[2]) /\ (IsFileT(c[2]) \/ IsNoneT(c[2])) /\ To(Put(At(c[2]), <<"file", c[3]>>), Ok)       \* not by flut
     \* long contents are known by a rule and a length only
     \/ c[1] = "writebig" /\ limit = -1 /\ c[4] > 22000 /\ There(c[2]) /\ (IsFileT(c[2]) \/ IsNoneT(c[2])) /\ To(Put(At(c[2]), <<"file", <<-1, c[3], c[4]>>>>), Ok)
     \/ c[1] = "socket" /\ (IsNoneT(c[2]) = TRUE) /\ To(Put(At(c[2]), <<"socket">>), Ok)                    \* something that is neither a file nor a folder, not by flut
     \/ c[1] = "load" /\ Keep(IF IsFileT(c[2]) THEN OkV(Bytes(At(c[2]))) ELSE Err)
     \/ c[1] = "loadec" /\ Keep(IF IsFileT(c[2]) THEN OkV(<<0, Bytes(At(c[2]))>>) ELSE OkV(<<1, <<>>>>))
     \/ c[1] = "copy" /\ (IF There(c[2]) /\ There(c[3]) THEN IF At(c[2]) # At(c[3]) THEN Copy(c[2], c[3], c[4])
                                                             ELSE Keep(OkV(0)) \/ (IsFileT(c[2]) /\ c[4] = 1 /\ Keep(OkV(1)))    \* onto itself: nothing changes, whatever is said
                          ELSE Copy(c[2], c[3], c[4]))
     \/ c[1] = "remove" /\ (IF IsDirT(c[2]) THEN At(c[2]) # <<>> /\ ~StartsWith(cwd, At(c[2])) ELSE TRUE)
          /\ (IF IsFileT(c[2]) \/ IsSocketT(c[2]) THEN To(fs \ Entry(At(c[2])), OkV(1))
              ELSE \/ Keep(OkV(0))
                   \/ IsDirT(c[2]) /\ (\A e \in fs : ~(StartsWith(e[1], At(c[2])) /\ e[1] # At(c[2]))) /\ To(fs \ Entry(At(c[2])), OkV(1)))     \* an empty folder may be removed as well
     \/ c[1] = "exists" /\ Keep(OkV(B(IsFileT(c[2]) \/ IsDirT(c[2]) \/ IsSocketT(c[2]))))
     \/ c[1] = "fileexists" /\ Keep(OkV(B(IsFileT(c[2]))))
     \/ c[1] = "folderexists" /\ Keep(OkV(B(IsDirT(c[2]))))
     \/ c[1] = "mkdirs" /\ Plain(c[2]) /\ LET cs == Parts(c[2]) IN
          IF IsDirT(c[2]) \/ Blocked(cwd, cs) THEN Keep(OkV(0)) ELSE To(WithFolders(fs, cwd, cs), OkV(1))
     \/ c[1] = "cd" /\ (IF IsDirT(c[2]) THEN cwd' = At(c[2]) ELSE cwd' = cwd) /\ res' = Ok /\ UNCHANGED <<fs, limit>>
     \/ c[1] = "home" /\ Keep(OkV(<<c[2] \o <<47, 46, 99, 111, 110, 102, 105, 103>>, c[2]>>))         \* the folders of a user whose home is c[2]: "/.config"
     \/ c[1] = "pwd" /\ Keep(OkV(cwd))
     \/ c[1] = "limit" /\ limit' = c[2] /\ res' = Ok /\ UNCHANGED <<fs, cwd>>
\* ----------------------------------------------------------------- the whole tree, in lexical order of names
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
RECURSIVE PathLess(_, _)
PathLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN Less(a[1], b[1]) ELSE PathLess(Tail(a), Tail(b))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE e \in S : \A f \in S : f = e \/ PathLess(e[1], f[1]) IN <<m>> \o Sorted(S \ {m})
Observed == Sorted(fs')
-----------------------------------------------------------------------------
\* everything lies in a folder; at most one file changes at a time
WellFormed == \A e \in fs : IsDir(Front(e[1]))
OneFile == [][ Cardinality({ e \in fs : e[2][1] = "file" /\ e \notin fs' }) <= 1 ]_vars
=============================================================================
