------------------------------ MODULE GlobText ------------------------------
(* when a text matches a glob pattern                                       *)
EXTENDS Text
STAR == 42
ANY  == 63
\* the definition: '*' stands for any text, '?' for any character
RECURSIVE Match(_, _)
Match(s, p) == IF p = <<>> THEN s = <<>>
               ELSE IF p[1] = STAR THEN Match(s, Tail(p)) \/ (s # <<>> /\ Match(Tail(s), p))
               ELSE s # <<>> /\ (p[1] = ANY \/ p[1] = s[1]) /\ Match(Tail(s), Tail(p))
\* the same as a set of reachable pattern positions: used on long texts
RECURSIVE Close(_, _)
Close(p, i) == IF i <= Len(p) /\ p[i] = STAR THEN {i} \cup Close(p, i + 1) ELSE {i}
RECURSIVE Run(_, _, _, _)
Run(s, j, p, R) == IF j > Len(s) THEN Len(p) + 1 \in R
   ELSE IF R = {} THEN FALSE
   ELSE Run(s, j + 1, p, UNION { IF i > Len(p) THEN {}
                                 ELSE IF p[i] = STAR THEN Close(p, i)
                                 ELSE IF p[i] = ANY \/ p[i] = s[j] THEN Close(p, i + 1) ELSE {} : i \in R })
Matches(s, p) == Run(s, 1, p, Close(p, 1))
AnyMatches(s, ps) == \E i \in DOMAIN ps : Matches(s, ps[i])
=============================================================================
