------------------------------ MODULE TraceIO ------------------------------
(* Traces recorded from the real code: one JSON object per line.  Every trace *)
(* specification below steps through Tr with a position variable i; an event  *)
(* that no action of the specification explains leaves TLC with no successor  *)
(* (deadlock), which the runner reports as a violation with that event.       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
Has(e, k) == k \in DOMAIN e
=============================================================================
