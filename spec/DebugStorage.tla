---------------------------- MODULE DebugStorage ----------------------------
(* Debug output of one process: a table that is written when it ends.       *)
(* Values are in quarters; cells are sequences, <<>> where nothing was      *)
(* written.                                                                 *)
EXTENDS Text
VARIABLES labels,  \* column names in order of first use
          rows,    \* sequence of rows; a row lists its cells, later columns are empty
          file,    \* where to write
          res
vars == <<labels, rows, file, res>>
DEFAULT == <<100, 101, 98, 117, 103, 46, 116, 120, 116>>         \* debug.txt
Init == labels = <<>> /\ rows = <<>> /\ file = DEFAULT /\ res = Ok
Column(l) == First(labels, LAMBDA x : x = l)
Cell(row, k) == IF k <= Len(row) THEN row[k] ELSE <<>>
Put(row, k, v) == [i \in 1..Max2(Len(row), k) |-> IF i = k THEN <<v>> ELSE Cell(row, i)]
Quarter(v) == LET a == Abs(v) IN (IF v < 0 THEN <<45>> ELSE <<>>) \o NumText(a \div 4) \o (CASE a % 4 = 0 -> <<>> [] a % 4 = 1 -> <<46, 50, 53>> [] a % 4 = 2 -> <<46, 53>> [] a % 4 = 3 -> <<46, 55, 53>>)
LOWEST == <<45, 51, 46, 52, 48, 50, 56, 50, 101, 43, 51, 56>>    \* -3.40282e+38 stands for no value
Shown(cell) == IF cell = <<>> THEN LOWEST ELSE Quarter(cell[1])
Line(cells) == Flatten([k \in DOMAIN cells |-> cells[k] \o (IF k = Len(cells) THEN <<NL>> ELSE <<TAB>>)])
Written == Line(labels) \o Flatten([r \in DOMAIN rows |-> Line([k \in DOMAIN labels |-> Shown(Cell(rows[r], k))])])
Call(c) ==
  \/ c[1] = "write" /\ res' = Ok /\ UNCHANGED file
        /\ (LET k == IF Column(c[2]) = 0 THEN Len(labels) + 1 ELSE Column(c[2])
                new == rows = <<>> \/ Cell(Last(rows), k) # <<>>
            IN /\ labels' = (IF k > Len(labels) THEN Append(labels, c[2]) ELSE labels)
               /\ rows' = (IF new THEN Append(rows, Put(<<>>, k, c[3])) ELSE Replace(rows, Len(rows), Put(Last(rows), k, c[3]))))
  \/ c[1] = "output" /\ file' = c[2] /\ res' = Ok /\ UNCHANGED <<labels, rows>>
  \* the process ends: the files that are there then, as <<name, text>>
  \/ c[1] = "exit" /\ res' = OkV(IF rows = <<>> THEN <<>> ELSE <<<<file, Written>>>>) /\ labels' = <<>> /\ rows' = <<>> /\ file' = DEFAULT
Observed == <<>>
=============================================================================
