----------------------------- MODULE MC_FileOps -----------------------------
EXTENDS FileOps, TLC, Json
CONSTANTS Paths, Contents, Limits, Depth, Size
VARIABLE hist
SomePaths == { <<97>>, <<100>>, <<100, 47, 98>>, <<46, 46, 47, 97>>, <<100, 47, 46, 46, 47, 97>> }
MorePaths == SomePaths \cup { <<100, 47, 98, 47, 99>>, <<100, 47, 46, 47, 98>> }
SomeContents == { <<>>, <<0, 10>>, <<255, 13, 26>> }
Calls == { <<"write", p, x>> : p \in Paths, x \in Contents } \cup { <<f, p>> : f \in {"load", "loadec", "remove", "exists", "fileexists", "folderexists", "mkdirs", "cd"}, p \in Paths }
   \cup { <<"socket", <<100>>>>, <<"socket", <<100, 47, 98>>>> }
   \cup { <<"copy", p, q, o>> : p \in Paths, q \in Paths, o \in {0, 1} } \cup { <<"pwd">> } \cup { <<"limit", n>> : n \in Limits }
MCInit == Init /\ hist = <<>>
MCNext == \E c \in Calls : Call(c) /\ Cardinality(fs') <= Size /\ (\A e \in fs' : Len(e[1]) <= Depth) /\ hist' = Append(hist, c)
View == <<fs, cwd, limit>>
Emit == PrintT("H " \o ToJson(hist'))
=============================================================================
