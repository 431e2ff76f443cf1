------------------------------- MODULE SeqGen -------------------------------
(* Arrival orders for the sequencer, with gate probes, and the expectations   *)
(* (`want`, `closed`) the driver uses to know how long to wait.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES hist, parked, nextOut, sent, win, done
vars == <<hist, parked, nextOut, sent, win, done>>
S == INSTANCE Sequencer
N == atoi(IOEnv.GEN_DEPTH)
Limit == atoi(IOEnv.GEN_LIMIT)
RE(X) == RandomElement(X)
Init == /\ hist = <<>> /\ parked = {} /\ nextOut = 0 /\ sent = {} /\ done = FALSE
        /\ win \in {2, 3, 5, 8, 20}
Unsent(z) == (0..N - 1) \ sent
Lowest(k) == {x \in Unsent(1) : Cardinality({y \in Unsent(1) : y < x}) < k}
\* late arrivals: everything but the next number wanted
Pool(z) == LET L == Lowest(win) IN IF RE(1..3) > 1 /\ L \ {nextOut} # {} THEN L \ {nextOut} ELSE L
Send == /\ Unsent(1) # {}
        /\ \E s \in {RE(Pool(Len(hist)))} :
             /\ S!Arrive(s) /\ sent' = sent \cup {s}
             /\ hist' = Append(hist, [op |-> "send", s |-> s, want |-> nextOut' - nextOut])
Batch == /\ Cardinality(Unsent(1)) > 3
         /\ \E A \in {RE({X \in SUBSET Lowest(5) : Cardinality(X) \in 2..4})} :
              LET P == parked \cup A
                  R == S!Run(nextOut, P)
              IN /\ nextOut' = R /\ parked' = {x \in P : x >= R} /\ sent' = sent \cup A
                 /\ hist' = Append(hist, [op |-> "batch", ss |-> A, want |-> R - nextOut])
Probe == /\ hist # <<>> /\ hist[Len(hist)].op # "probe"
         /\ hist' = Append(hist, [op |-> "probe", n |-> RE(1..3), closed |-> IF S!GateClosed(parked, Limit) THEN 1 ELSE 0])
         /\ UNCHANGED <<parked, nextOut, sent>>
Next == ~done /\ Unsent(1) # {} /\ (Send \/ Send \/ Batch \/ Probe) /\ UNCHANGED <<win, done>>
Finish == ~done /\ Unsent(1) = {} /\ done' = TRUE /\ UNCHANGED <<hist, parked, nextOut, sent, win>>
          /\ PrintT("GEN " \o ToJson(hist \o <<[op |-> "probe", n |-> 2, closed |-> 0], [op |-> "close"]>>))
Spec == Init /\ [][Next \/ Finish]_vars
=============================================================================
