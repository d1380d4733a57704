------------------------------ MODULE Include ------------------------------
(* Loading a file whose nodes include other files. A file system is a       *)
(* sequence of <<path, tree>>; the tree's children are the file's root      *)
(* nodes. Paths are text with '/', relative to one base folder.             *)
EXTENDS Tree
VARIABLE res
vars == <<res>>
Init == res = Ok
FILE  == <<102, 105, 108, 101>>                                                   \* "file"
MERGE == <<109, 101, 114, 103, 101, 95, 99, 104, 105, 108, 100, 114, 101, 110>>   \* "merge_children"
DEFAULT == <<73, 78, 67, 76, 85, 68, 69>>                                         \* "INCLUDE"
MaxLevel == 100          \* files nested deeper are refused
\* ------------------------------------------------------------ where a path leads
Comps(p) == SelectSeq(Split(p, {47}), LAMBDA x : x # <<46>>)
Dots == <<46, 46>>
IsFolder(fs, d) == \E i \in DOMAIN fs : LET c == Comps(fs[i][1]) IN Len(c) > Len(d) /\ SubSeq(c, 1, Len(d)) = d
RECURSIVE Walk(_, _, _)
\* the place reached from folder d along the parts cs: <<parts>>, or <<>> when a folder on the way is missing
Walk(fs, d, cs) ==
  IF cs = <<>> THEN <<d>>
  ELSE IF cs[1] = Dots THEN IF d = <<>> THEN <<>> ELSE Walk(fs, Front(d), Tail(cs))
  ELSE LET e == Append(d, cs[1]) IN IF Len(cs) > 1 /\ ~(IsFolder(fs, e) = TRUE) THEN <<>> ELSE Walk(fs, e, Tail(cs))
FileAt(fs, c) == LET S == { i \in DOMAIN fs : Comps(fs[i][1]) = c } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
\* ------------------------------------------------------------ resolving; <<>> stands for an error
Bad == <<>>
The(S) == CHOOSE v \in S : TRUE          \* The({ F(x) : x \in {e} }) evaluates e once
RECURSIVE Load(_, _, _, _)
RECURSIVE Resolve(_, _, _, _, _, _)
\* the file at place c, completely resolved; open: the files that are being loaded
Load(fs, c, dir, open) ==
  IF c \in open \/ Cardinality(open) >= MaxLevel THEN Bad
  ELSE LET i == FileAt(fs, c) IN IF i = 0 THEN Bad ELSE The({ Resolve(fs, fs[i][2], 1, Front(c), dir, o) : o \in {open \cup {c}} })
\* put the included file inc in the place of child i of n
Placed(n, i, x, inc) ==
  LET root == Kids(inc[1])[1] rest == <<Val(n), RemoveAt(Kids(n), i)>> m == FindKey(x, MERGE) IN
  IF m # 0 /\ Val(Child(x, IF m = 0 THEN 1 ELSE m)) = <<49>> THEN <<Merge(rest, root[2], FALSE), 1>>
  ELSE <<<<Val(n), InsertAt(Kids(rest), i, root)>>, i + 1>>
\* node n of a file in folder d: resolve its children from position i on
Resolve(fs, n, i, d, dir, open) ==
  IF i > Len(Kids(n)) THEN <<n>>
  ELSE LET key == Kids(n)[i][1] x == Kids(n)[i][2] IN
    IF key # dir
    THEN The({ IF r = Bad THEN Bad ELSE The({ Resolve(fs, t, i + 1, d, dir, open) : t \in {SetKid(n, i, r[1])} }) : r \in {Resolve(fs, x, 1, d, dir, open)} })
    ELSE LET f == FindKey(x, FILE)
             place == IF f = 0 THEN <<>> ELSE Walk(fs, d, Comps(Val(Child(x, f))))
         IN The({ IF inc = Bad THEN Bad ELSE IF Len(Kids(inc[1])) # 1 THEN Bad
                  ELSE The({ Resolve(fs, t[1], t[2], d, dir, open) : t \in {Placed(n, i, x, inc)} })
                : inc \in {IF place = <<>> THEN Bad ELSE Load(fs, place[1], dir, open)} })
\* ------------------------------------------------------------ calls
RECURSIVE Proper(_, _)
\* the directives used are ones with a meaning: a non-empty file name, merging 0 or 1
Proper(n, dir) == \A i \in DOMAIN Kids(n) : LET k == Kids(n)[i] f == FindKey(k[2], FILE) m == FindKey(k[2], MERGE) IN
                   IF k[1] = dir THEN (IF f = 0 THEN TRUE ELSE Val(Child(k[2], f)) # <<>>) /\ (IF m = 0 THEN TRUE ELSE Val(Child(k[2], m)) \in {<<48>>, <<49>>})
                   ELSE Proper(k[2], dir)
Call(c) ==
  /\ c[1] = "load"                                                             \* c[2] files, c[3] path, c[4] directive (empty: the default)
  /\ (\A i \in DOMAIN c[2] : Proper(c[2][i][2], IF c[4] = <<>> THEN DEFAULT ELSE c[4])) = TRUE
  /\ LET dir == IF c[4] = <<>> THEN DEFAULT ELSE c[4]
         place == Walk(c[2], <<>>, Comps(c[3]))
         r == IF place = <<>> THEN Bad ELSE Load(c[2], place[1], dir, {})
     IN res' = IF r = Bad THEN Err ELSE OkV(<<r[1], CountNodes(r[1])>>)
Observed == <<>>
\* ------------------------------------------------------------ properties of the resolution itself
RECURSIVE HasKey(_, _)
HasKey(n, dir) == \E i \in DOMAIN Kids(n) : Kids(n)[i][1] = dir \/ HasKey(Kids(n)[i][2], dir)
=============================================================================
