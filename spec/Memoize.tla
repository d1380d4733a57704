------------------------------ MODULE Memoize ------------------------------
(* several memoized functions over one impure function: its n-th successful *)
(* invocation returns n, so that a repeated invocation cannot go unnoticed  *)
EXTENDS Base
VARIABLES mem,    \* instance -> sequence of <<arguments, value>>, distinct arguments
          log,    \* every invocation of the function: <<kind, arguments>>
          next,   \* value of the next successful invocation
          armed,  \* number of invocations until one throws, 0: none does
          fib,    \* arguments the memoized fibonacci function has been invoked with
          res
vars == <<mem, log, next, armed, fib, res>>
Insts == 1..8
Init == mem = [i \in Insts |-> <<>>] /\ log = <<>> /\ next = 1 /\ armed = 0 /\ fib = <<>> /\ res = Ok
Known(i, a) == First(mem[i], LAMBDA e : e[1] = a)
RECURSIVE Fibs(_, _)
\* arguments for which fibonacci is invoked by a call with n, given those known
Fibs(n, known) == IF n \in Range(known) THEN known
                  ELSE LET k1 == known \o <<n>> IN IF n < 2 THEN k1 ELSE Fibs(n - 2, Fibs(n - 1, k1))
RECURSIVE FibAt(_, _, _)
FibAt(n, a, b) == IF n = 0 THEN a ELSE FibAt(n - 1, b, a + b)
Call(c) ==
  \/ /\ c[1] = "call"      \* <<"call", instance, arguments>>
     /\ UNCHANGED fib
     /\ LET k == Known(c[2], c[3]) IN
        IF k # 0 THEN res' = OkV(mem[c[2]][k][2]) /\ UNCHANGED <<mem, log, next, armed>>
        ELSE /\ log' = Append(log, c[3])
             /\ armed' = Max2(0, armed - 1)
             /\ IF armed = 1 THEN res' = Err /\ UNCHANGED <<mem, next>>
                ELSE res' = OkV(next) /\ next' = next + 1 /\ mem' = [mem EXCEPT ![c[2]] = Append(@, <<c[3], next>>)]
  \/ c[1] = "arm" /\ armed' = c[2] /\ res' = Ok /\ UNCHANGED <<mem, log, next, fib>>
  \/ c[1] = "reset" /\ mem' = [mem EXCEPT ![c[2]] = <<>>] /\ res' = Ok /\ UNCHANGED <<log, next, armed, fib>>
  \/ c[1] = "copy" /\ mem' = [mem EXCEPT ![c[2]] = mem[c[3]]] /\ res' = Ok /\ UNCHANGED <<log, next, armed, fib>>
  \/ c[1] = "fib" /\ fib' = Fibs(c[2], fib) /\ res' = OkV(FibAt(c[2], 0, 1)) /\ UNCHANGED <<mem, log, next, armed>>
\* the number of invocations and the last of them
Observed == <<Len(log'), IF log' = <<>> THEN <<>> ELSE Last(log'), Len(fib'), IF fib' = <<>> THEN -1 ELSE Last(fib')>>
-----------------------------------------------------------------------------
OncePerArguments == \A i \in Insts : \A j, k \in DOMAIN mem[i] : mem[i][j][1] = mem[i][k][1] => j = k
Stable == [][ \A i \in Insts : mem'[i] # <<>> /\ Len(mem'[i]) >= Len(mem[i]) => (StartsWith(mem'[i], mem[i]) \/ \E j \in Insts : mem'[i] = mem[j]) ]_vars
NoMemoryOfFailure == [][ res' = Err => mem' = mem ]_vars
=============================================================================
