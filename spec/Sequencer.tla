------------------------------ MODULE Sequencer ------------------------------
(* The sequencer as a sequential object: items arrive in any order, leave in  *)
(* order; the gate is closed exactly while `Limit` or more items are parked.  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES parked,   \* items that wait for a predecessor
          nextOut   \* the next number to be emitted
\* how far emission gets once item s has arrived
RECURSIVE Run(_, _)
Run(n, S) == IF n \in S THEN Run(n + 1, S \ {n}) ELSE n
SInit(first) == parked = {} /\ nextOut = first
After(s) == Run(nextOut, parked \cup {s})
Arrive(s) == /\ nextOut' = After(s)
             /\ parked' = {x \in parked \cup {s} : x >= After(s)}
GateClosed(S, limit) == Cardinality(S) >= limit
=============================================================================
