------------------------------- MODULE Pipeline -------------------------------
(* The import pipeline around the sequencer, at the granularity of channel    *)
(* operations, over all interleavings: an upstream that waits at the gate and *)
(* then hands numbers, in order, to workers over an unbuffered channel; W     *)
(* workers that each hold one item for any length of time; the sequencer's    *)
(* goroutine, which receives, parks, sets and clears the gate and emits one   *)
(* item at a time; a consumer that takes items from an unbuffered channel;    *)
(* closing of the channels from upstream to downstream.                       *)
(* Checked: order, exactly once, bound on parked items, no deadlock, and      *)
(* (under fairness) everything is delivered and the output is closed.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, W, Limit
VARIABLES up,        \* next number upstream will hand out
          passed,    \* upstream has passed the gate for `up`
          hold,      \* worker -> item held, or -1
          wdone,     \* worker -> finished
          parked, nextOut, gate,   \* the sequencer's state
          sending,   \* item the sequencer is blocked sending, or -1
          sphase,    \* "recv" | "emit" (first item of a run) | "drain"
          out, closed
vars == <<up, passed, hold, wdone, parked, nextOut, gate, sending, sphase, out, closed>>
Workers == 1..W
Init == /\ up = 0 /\ passed = FALSE /\ hold = [w \in Workers |-> -1] /\ wdone = [w \in Workers |-> FALSE]
        /\ parked = {} /\ nextOut = 0 /\ gate = FALSE /\ sending = -1 /\ sphase = "recv" /\ out = <<>> /\ closed = FALSE
UpGate == up < N /\ ~passed /\ ~gate /\ passed' = TRUE
          /\ UNCHANGED <<up, hold, wdone, parked, nextOut, gate, sending, sphase, out, closed>>
UpHand == /\ passed /\ \E w \in Workers : hold[w] = -1 /\ ~wdone[w] /\ hold' = [hold EXCEPT ![w] = up]
          /\ up' = up + 1 /\ passed' = FALSE
          /\ UNCHANGED <<wdone, parked, nextOut, gate, sending, sphase, out, closed>>
WFinish == /\ up = N /\ \E w \in Workers : hold[w] = -1 /\ ~wdone[w] /\ wdone' = [wdone EXCEPT ![w] = TRUE]
           /\ UNCHANGED <<up, passed, hold, parked, nextOut, gate, sending, sphase, out, closed>>
\* the rendezvous of a worker with the sequencer
Deliver == /\ sphase = "recv"
           /\ \E w \in Workers : /\ hold[w] # -1
                /\ hold' = [hold EXCEPT ![w] = -1]
                /\ IF hold[w] = nextOut THEN sending' = hold[w] /\ sphase' = "emit" /\ UNCHANGED <<parked, gate>>
                   ELSE /\ parked' = parked \cup {hold[w]}
                        /\ gate' = (gate \/ Cardinality(parked') = Limit)
                        /\ UNCHANGED <<sending, sphase>>
           /\ UNCHANGED <<up, passed, wdone, nextOut, out, closed>>
\* the consumer takes the item being sent
Emit == /\ sending # -1
        /\ out' = Append(out, sending)
        /\ gate' = IF sphase = "drain" /\ Cardinality(parked) = Limit THEN FALSE ELSE gate
        /\ parked' = parked \ {sending}
        /\ nextOut' = nextOut + 1
        /\ IF nextOut + 1 \in parked THEN sending' = nextOut + 1 /\ sphase' = "drain"
           ELSE sending' = -1 /\ sphase' = "recv"
        /\ UNCHANGED <<up, passed, hold, wdone, closed>>
Close == /\ sphase = "recv" /\ \A w \in Workers : wdone[w]
         /\ ~closed /\ closed' = TRUE
         /\ UNCHANGED <<up, passed, hold, wdone, parked, nextOut, gate, sending, sphase, out>>
Finished == closed /\ UNCHANGED vars
Next == UpGate \/ UpHand \/ WFinish \/ Deliver \/ Emit \/ Close \/ Finished
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Order     == \A k \in 1..Len(out) : out[k] = k - 1
GateExact == sphase = "recv" => (gate <=> Cardinality(parked) >= Limit)
Bound     == Cardinality(parked) <= Limit + W
Complete  == closed => Len(out) = N /\ parked = {}
Delivered == <>(closed /\ Len(out) = N)
=============================================================================
