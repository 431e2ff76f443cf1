------------------------------ MODULE SeqTrace ------------------------------
(* Conformance of the sequencer to Sequencer (and of a pipeline around it to  *)
(* the guarantees model checked in Pipeline).                                 *)
EXTENDS TraceIO, FiniteSets
VARIABLES i, parked, nextOut, limit
vars == <<i, parked, nextOut, limit>>
S == INSTANCE Sequencer
Init == i = 1 /\ parked = {} /\ nextOut = 0 /\ limit = 1
Count(a, b) == [k \in 1..(b - a) |-> a + k - 1]
New(e) == e.op = "new" /\ parked' = {} /\ nextOut' = e.first /\ limit' = e.limit
Send(e) == e.op = "send" /\ e.ok /\ S!Arrive(e.s) /\ e.outs = Count(nextOut, nextOut') /\ UNCHANGED limit
Batch(e) == LET A == {e.ss[k] : k \in 1..Len(e.ss)}
                P == parked \cup A
                R == S!Run(nextOut, P)
            IN e.op = "batch" /\ e.ok /\ nextOut' = R /\ parked' = {x \in P : x >= R}
               /\ e.outs = Count(nextOut, R) /\ UNCHANGED limit
Probe(e) == e.op = "probe" /\ UNCHANGED <<parked, nextOut, limit>>
            /\ e.blocked = IF S!GateClosed(parked, limit) THEN e.n ELSE 0
Close(e) == e.op = "close" /\ e.closed /\ e.outs = <<>> /\ parked = {} /\ UNCHANGED <<parked, nextOut, limit>>
Pipe(e) == e.op = "pipeline" /\ parked' = {} /\ nextOut' = e.n /\ limit' = e.limit + e.w + e.outcap + 4
\* `ahead`: how far the upstream got beyond the emitted items; parked <= Limit + W, W held by workers, one being
\* handed over, one between emission and its being counted, those in the output channel's buffer
Out(e) == e.op = "out" /\ ~e.hung /\ e.outs = Count(0, nextOut) /\ e.ahead <= limit /\ UNCHANGED <<parked, nextOut, limit>>
Step(e) == New(e) \/ Send(e) \/ Batch(e) \/ Probe(e) \/ Close(e) \/ Pipe(e) \/ Out(e)
Next == \/ i <= Len(Tr) /\ Step(Tr[i]) /\ i' = i + 1
        \/ i > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pos == [i |-> i]     \* what error traces show (whole states can be huge)
=============================================================================
