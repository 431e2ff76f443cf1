------------------------------ MODULE MemTrace ------------------------------
(* Conformance of the memory blocker to MemBlocker.                           *)
EXTENDS TraceIO, FiniteSets
VARIABLES i, used, asleep, holder, queue, max
vars == <<i, used, asleep, holder, queue, max>>
Nobody == 0
B == INSTANCE MemBlocker
Init == i = 1 /\ used = 0 /\ asleep = {} /\ holder = 0 /\ queue = {} /\ max = 0
S(q) == {q[k] : k \in 1..Len(q)}
New(e) == e.op = "new" /\ used' = 0 /\ asleep' = {} /\ holder' = 0 /\ queue' = {} /\ max' = e.max
\* several waiters calling at once: each as if it called alone
Call(e) == /\ e.op = "call"
           /\ S(e.back) = (IF holder = 0 /\ B!Spare(used, max) THEN S(e.ws) ELSE {})
           /\ asleep' = (asleep \cup S(e.ws)) \ S(e.back) /\ UNCHANGED <<used, holder, queue, max>>
Take(e) == e.op = "take" /\ B!Take(e.k, S(e.back)) /\ UNCHANGED max
Drop(e) == e.op = "drop" /\ B!Drop(e.k, max, S(e.back)) /\ UNCHANGED max
Begin(e) == e.op = "begin" /\ B!Begin(e.f, S(e.back)) /\ holder' = e.holder /\ UNCHANGED max
Done(e) == e.op = "done" /\ B!Done(e.f, max, S(e.back), e.holder) /\ UNCHANGED max
\* asking whether there is spare memory, and how much was in use when that was last looked at
Ask(e) == /\ e.op = "spare" /\ S(e.back) = {} /\ e.free = B!Spare(used, max) /\ e.last = used
          /\ UNCHANGED <<used, asleep, holder, queue, max>>
Step(e) == New(e) \/ Call(e) \/ Take(e) \/ Drop(e) \/ Begin(e) \/ Done(e) \/ Ask(e)
Next == \/ i <= Len(Tr) /\ Step(Tr[i]) /\ i' = i + 1
        \/ i > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pos == [i |-> i]     \* what error traces show (whole states can be huge)
=============================================================================
