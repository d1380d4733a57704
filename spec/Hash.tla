-------------------------------- MODULE Hash --------------------------------
(* 64-bit FNV-1a. A 64-bit value is a tuple of eight bytes, lowest first.    *)
EXTENDS Base
VARIABLE res
vars == <<res>>
Init == res = Ok
Basis == <<37, 35, 34, 132, 228, 156, 242, 203>>     \* 0xCBF29CE484222325
\* exclusive or of two bytes
RECURSIVE XorB(_, _)
XorB(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE ((a + b) % 2) + 2 * XorB(a \div 2, b \div 2)
\* v * 0x100000001B3 = v * 435 + v * 2^40, modulo 2^64
RECURSIVE Carry(_, _, _)
Carry(cols, i, c) == IF i > 8 THEN <<>> ELSE <<(cols[i] + c) % 256>> \o Carry(cols, i + 1, (cols[i] + c) \div 256)
TimesPrime(v) == Carry([i \in 1..8 |-> v[i] * 435 + (IF i > 5 THEN v[i - 5] ELSE 0)], 1, 0)
Feed(v, b) == TimesPrime([v EXCEPT ![1] = XorB(v[1], b)])
RECURSIVE Fold(_, _, _)
Fold(v, s, i) == IF i > Len(s) THEN v ELSE Fold(Feed(v, s[i]), s, i + 1)
Fnv(s) == Fold(Basis, s, 1)
SevenBit(s) == \A i \in DOMAIN s : s[i] < 128
\* results: run time C string, run time string, constant expression function, literal operator
AllSame(r) == \A i \in DOMAIN r : r[i] = r[1]
Bytes8 == [1..8 -> 0..255]
Call(c) == \/ c[1] \in {"hash", "parts"} /\ LET s == IF c[1] = "hash" THEN c[2] ELSE c[2] \o c[3] IN
                  IF SevenBit(s) THEN res' = OkV([i \in 1..4 |-> Fnv(s)])
                  ELSE res'[1] = "ok" /\ Len(res'[2]) = 4 /\ AllSame(res'[2])     \* other texts: all four agree
           \/ c[1] = "literals" /\ res' = OkV([i \in 1..Len(c[2]) |-> <<Fnv(c[2][i]), Fnv(c[2][i])>>])
Observed == 0
=============================================================================
