------------------------------- MODULE MemGen -------------------------------
(* Histories of the memory blocker: waiters calling, memory taken and freed,  *)
(* several freers, with the waiters that must have gone on (`want`).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES used, asleep, holder, queue, hist, n, max, fin
vars == <<used, asleep, holder, queue, hist, n, max, fin>>
Nobody == 0
B == INSTANCE MemBlocker
Depth == atoi(IOEnv.GEN_DEPTH)
RE(X) == RandomElement(X)
Top == max + 3
Init == /\ used = 0 /\ asleep = {} /\ holder = 0 /\ queue = {} /\ hist = <<>> /\ n = 0 /\ fin = FALSE /\ max \in 1..4
H(r) == hist' = Append(hist, r)
Call == \E k \in {RE({1, 1, 2, 3})} :
          LET ws == {n + j : j \in 1..k}
          IN /\ n' = n + k
             /\ IF holder = 0 /\ B!Spare(used, max)
                THEN UNCHANGED asleep /\ H([op |-> "call", ws |-> ws, want |-> k])
                ELSE asleep' = asleep \cup ws /\ H([op |-> "call", ws |-> ws, want |-> 0])
             /\ UNCHANGED <<used, holder, queue>>
Take == /\ used < Top /\ \E k \in {RE(1..(Top - used))} : B!Take(k, {}) /\ H([op |-> "take", k |-> k, want |-> 0]) /\ UNCHANGED n
Begin == /\ Cardinality(queue) < 2
         /\ \E f \in {n + 1} : n' = n + 1 /\ B!Begin(f, {}) /\ H([op |-> "begin", f |-> f, want |-> 0, held |-> IF holder = 0 THEN 1 ELSE 0])
\* memory goes while somebody is freeing; outside of that only when nobody sleeps (it may or may not wake them)
Drop == /\ used > 0 /\ (holder # 0 \/ asleep = {})
        /\ \E k \in {RE(1..used)} : B!Drop(k, max, {}) /\ H([op |-> "drop", k |-> k, want |-> 0]) /\ UNCHANGED n
\* with others in line, the driver drains the line: Done for each of them, taking what comes next
Done == /\ holder # 0 /\ queue = {}
        /\ B!Done(holder, max, IF B!Spare(used, max) THEN asleep ELSE {}, 0)
        /\ H([op |-> "done", want |-> IF B!Spare(used, max) THEN Cardinality(asleep) ELSE 0]) /\ UNCHANGED n
DoneLine == /\ holder # 0 /\ queue # {}
            /\ holder' = 0 /\ queue' = {} /\ asleep' = (IF B!Spare(used, max) THEN {} ELSE asleep)
            /\ H([op |-> "line", want |-> IF B!Spare(used, max) THEN Cardinality(asleep) ELSE 0]) /\ UNCHANGED <<used, n>>
Free == H([op |-> "spare", want |-> 0]) /\ UNCHANGED <<used, asleep, holder, queue, n>>
Next == /\ ~fin /\ Len(hist) < Depth /\ UNCHANGED <<max, fin>>
        /\ (Call \/ Call \/ Take \/ Take \/ Begin \/ Drop \/ Done \/ DoneLine \/ Free)
\* in the end all memory is freed and everybody goes on
Ending == (IF holder = 0 THEN <<[op |-> "begin", f |-> n + 1, want |-> 0, held |-> 1]>> ELSE <<>>)
     \o (IF used > 0 THEN <<[op |-> "drop", k |-> used, want |-> 0]>> ELSE <<>>)
     \o <<[op |-> "line", want |-> Cardinality(asleep)]>>
     \o <<[op |-> "spare", want |-> 0]>>
Finish == ~fin /\ Len(hist) >= Depth /\ fin' = TRUE /\ UNCHANGED <<used, asleep, holder, queue, hist, n, max>>
          /\ PrintT("GEN " \o ToJson(<<[op |-> "new", max |-> max]>> \o hist \o Ending))
Spec == Init /\ [][Next \/ Finish]_vars
=============================================================================
