-------------------------------- MODULE Path --------------------------------
(* flut::path: a text with separators and dots                              *)
EXTENDS Text
VARIABLES p, res
vars == <<p, res>>
Sep == {47, 92}
DOT == 46
SepPos(s)    == LastIn(s, Sep)
Parent(s)    == SubSeq(s, 1, SepPos(s) - 1)
Filename(s)  == SubSeq(s, SepPos(s) + 1, Len(s))
DotPos(f)    == LastIn(f, {DOT})
Stem(s)      == LET f == Filename(s) IN IF DotPos(f) = 0 THEN f ELSE SubSeq(f, 1, DotPos(f) - 1)
Extension(s) == LET f == Filename(s) IN IF DotPos(f) = 0 THEN <<>> ELSE SubSeq(f, DotPos(f) + 1, Len(f))
HasFilename(s) == s # <<>> /\ SepPos(s) # Len(s)
HasParent(s) == SepPos(s) # 0
Join(a, b)   == IF HasFilename(a) THEN a \o <<47>> \o b ELSE a \o b
UptoName(s)  == SubSeq(s, 1, SepPos(s))
NoExtension(s) == UptoName(s) \o Stem(s)
WithExtension(s, e) == NoExtension(s) \o (IF e = <<>> THEN <<>> ELSE <<DOT>> \o e)
WithFilename(s, f)  == UptoName(s) \o f
Preferred(s) == [i \in DOMAIN s |-> IF s[i] \in Sep THEN 47 ELSE s[i]]

Init == p = <<>> /\ res = Ok
Set(s) == p' = s /\ res' = Ok
Call(c) ==
  \/ c[1] \in {"set", "sets", "setc", "setm", "assign", "assigns"} /\ Set(c[2])
  \/ c[1] = "clear"   /\ Set(<<>>)
  \/ c[1] = "ext"     /\ Set(WithExtension(p, c[2]))
  \/ c[1] = "noext"   /\ Set(NoExtension(p))
  \/ c[1] = "rmname"  /\ Set(Parent(p))
  \/ c[1] = "name"    /\ Set(WithFilename(p, c[2]))
  \/ c[1] = "noname"  /\ Set(UptoName(p))
  \/ c[1] = "pref"    /\ Set(Preferred(p))
  \/ c[1] \in {"join", "joins", "joinp", "joinc", "joineq", "joineqs"} /\ Set(Join(p, c[2]))
  \/ c[1] = "parent"  /\ Set(Parent(p))
  \/ c[1] = "add"     /\ Set(p \o c[2])
  \/ c[1] = "pre"     /\ Set(c[2] \o p)
  \/ c[1] = "copy"    /\ Set(p)
  \/ c[1] = "eq"      /\ res' = OkV(<<B(p = c[2]), B(p # c[2])>>) /\ UNCHANGED p
  \/ c[1] = "out"     /\ res' = OkV(<<p, p, p>>) /\ UNCHANGED p       \* stream, conversion to text and back
Observed == <<p', Parent(p'), Filename(p'), Stem(p'), Extension(p'), B(HasFilename(p')), B(HasParent(p')), B(p' = <<>>)>>
-----------------------------------------------------------------------------
SplitAtSeparator == IF HasParent(p) THEN p = Parent(p) \o <<p[SepPos(p)]>> \o Filename(p) ELSE p = Filename(p) /\ Parent(p) = <<>>
SplitAtDot == LET f == Filename(p) IN IF DotPos(f) > 0 THEN f = Stem(p) \o <<DOT>> \o Extension(p) ELSE f = Stem(p) /\ Extension(p) = <<>>
NoSepInName == \A i \in DOMAIN Filename(p) : Filename(p)[i] \notin Sep
=============================================================================
