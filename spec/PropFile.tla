------------------------------ MODULE PropFile ------------------------------
(* property files on disk: what is loaded is what was saved last            *)
EXTENDS Tree
VARIABLES files,      \* file number -> <<tree>>, or <<>> when it does not exist
          res
vars == <<files, res>>
Names == 1..2
Init == files = [i \in Names |-> <<>>] /\ res = Ok
\* trees that can be written: keys start with a letter, keys and values have no surrounding white space
Trimmed(s) == TrimSpace(s) = s
RECURSIVE Writable(_)
Writable(n) == \A i \in DOMAIN Kids(n) : LET k == Kids(n)[i] IN
                  k[1] # <<>> /\ IsAlpha(k[1][1]) /\ Trimmed(k[1]) /\ Trimmed(Val(k[2])) /\ 0 \notin Range(k[1]) /\ 0 \notin Range(Val(k[2])) /\ Writable(k[2])
Stored(n) == <<<<>>, Kids(n)>>          \* the root has no value in a file
Keep(r) == res' = r /\ UNCHANGED files
Call(c) ==
  \/ c[1] = "save" /\ (Writable(c[3]) = TRUE) /\ files' = [files EXCEPT ![c[2]] = <<Stored(c[3])>>] /\ res' = OkV(1)        \* c[4]: readable or compact
  \/ c[1] = "savedef" /\ (Writable(c[3]) = TRUE) /\ files' = [files EXCEPT ![c[2]] = <<Stored(c[3])>>] /\ res' = OkV(1)
  \* room for c[5] bytes only: a save that reports success has written everything; after one that does not the file is removed (not by flut)
  \/ c[1] = "savelim" /\ (Writable(c[3]) = TRUE) /\ \/ files' = [files EXCEPT ![c[2]] = <<Stored(c[3])>>] /\ res' = OkV(1)
                                                    \/ files' = [files EXCEPT ![c[2]] = <<>>] /\ res' = OkV(0)
  \/ c[1] = "savebad" /\ Keep(OkV(0))                                                       \* in a folder that does not exist
  \/ c[1] \in {"load", "loadany", "parse"} /\ Keep(IF files[c[2]] = <<>> THEN Err ELSE OkV(files[c[2]][1]))
  \/ c[1] = "loadec" /\ Keep(IF files[c[2]] = <<>> THEN OkV(<<1, NoNode>>) ELSE OkV(<<0, files[c[2]][1]>>))         \* through an error code
  \/ c[1] = "again" /\ (IF files[c[2]] = <<>> THEN Keep(Err)                                \* load, save what was loaded, in the other form
                        ELSE files' = [files EXCEPT ![c[3]] = files[c[2]]] /\ res' = Ok)
  \/ c[1] = "remove" /\ files' = [files EXCEPT ![c[2]] = <<>>] /\ res' = Ok
  \/ c[1] = "trip" /\ (Writable(c[2]) = TRUE) /\ Keep(OkV(<<Stored(c[2]), Stored(c[2])>>))           \* readable, compact
Observed == [i \in Names |-> B(files'[i] # <<>>)]
-----------------------------------------------------------------------------
OneAtATime == [][ \A i, j \in Names : i # j => files'[i] = files[i] \/ files'[j] = files[j] ]_vars
=============================================================================
