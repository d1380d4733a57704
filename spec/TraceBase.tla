------------------------------ MODULE TraceBase ------------------------------
(* Traces recorded from the real code: the file named by TRACE holds one   *)
(* history per line, a list of events [c |-> call, r |-> result, s |-> observed state]. *)
EXTENDS Json, IOUtils
Histories == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================
