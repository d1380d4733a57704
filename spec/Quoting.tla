------------------------------- MODULE Quoting -------------------------------
(* quoting and unquoting of flut (string_tools): a string can always be     *)
(* written between quotes and read back                                     *)
EXTENDS Text
VARIABLE res
vars == <<res>>
Init == res = Ok
Call(c) == res' = CASE c[1] = "enc"     -> OkV(Encode(c[2]))
                    [] c[1] = "dec"     -> IF c[2] = <<>> THEN Err ELSE OkV(Decode(c[2], 1))
                    [] c[1] = "quoted"  -> OkV(Quoted(c[2]))
                    [] c[1] = "needs"   -> OkV(B(NeedsQuotes(c[2])))
                    [] c[1] = "tryq"    -> OkV(TryQuoted(c[2]))
                    [] c[1] = "tryunq"  -> OkV(TryUnquoted(c[2]))
                    [] c[1] = "trip"    -> OkV(<<c[2], c[2]>>)    \* unquoting what was quoted, forced and as needed
Observed == 0
-----------------------------------------------------------------------------
RoundTrip(s) == TryUnquoted(Quoted(s)) = s /\ TryUnquoted(TryQuoted(s)) = s
Inside(s) == LET q == Quoted(s) IN SubSeq(q, 2, Len(q) - 1)
\* no raw control characters, and every quote inside is escaped by an odd run of backslashes
RECURSIVE Run(_, _)
Run(s, p) == IF p < 1 \/ s[p] # BSL THEN 0 ELSE 1 + Run(s, p - 1)
Clean(s) == LET q == Inside(s) IN \A i \in DOMAIN q : q[i] >= 32 /\ (q[i] = QUOTE => Run(q, i - 1) % 2 = 1)
LeftAlone(s) == ~NeedsQuotes(s) => TryQuoted(s) = s
DecodeInside(s) == s # <<>> => Decode(s, 1)[2] \in 1..Len(s)
EncodeDecode(c) == Decode(Encode(c), 1) = <<c, Len(Encode(c))>>
=============================================================================
