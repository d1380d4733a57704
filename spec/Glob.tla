-------------------------------- MODULE Glob --------------------------------
(* glob patterns and pattern_matcher                                        *)
EXTENDS GlobText
VARIABLE res
vars == <<res>>
Init == res = Ok
FirstMatch(ss, ps) == LET S == { i \in DOMAIN ss : AnyMatches(ss[i], ps) } IN
                      IF S = {} THEN Len(ss) ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1
Matcher(ss, ps) == OkV(<<[i \in DOMAIN ss |-> B(AnyMatches(ss[i], ps))], FirstMatch(ss, ps)>>)
Call(c) == res' = CASE c[1] = "match" -> OkV(B(Matches(c[2], c[3])))
                    [] c[1] \in {"matcher", "matcherc"} -> Matcher(c[4], Split(c[2], Range(c[3])))
                    [] c[1] \in {"matcherd", "matchercd", "matcherpn"} -> Matcher(c[3], Split(c[2], {59}))
Observed == 0
=============================================================================
