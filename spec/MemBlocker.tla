----------------------------- MODULE MemBlocker -----------------------------
(* The memory blocker as its callers see it.  `used` units of memory are in   *)
(* use; memory is spare while used < Max.  Waiters (WaitForSpareMemory) go on *)
(* at once when it is, and otherwise sleep until somebody frees memory        *)
(* (StartFreeingMem .. MemoryWasFreed) and enough of it.  One frees at a      *)
(* time, and nobody is let go meanwhile.                                      *)
EXTENDS Integers, FiniteSets
CONSTANT Nobody
VARIABLES used, asleep, holder, queue
Spare(u, max) == u < max
\* `back`: the waiters that have returned by the time everything is quiet again
Call(w, max, back) ==
    /\ back = (IF holder = Nobody /\ Spare(used, max) THEN {w} ELSE {})
    /\ asleep' = (asleep \cup {w}) \ back
    /\ UNCHANGED <<used, holder, queue>>
Take(k, back) == used' = used + k /\ back = {} /\ UNCHANGED <<asleep, holder, queue>>
\* memory that goes away without anybody being told may or may not let sleepers go on
Drop(k, max, back) ==
    /\ used' = used - k
    /\ back \subseteq (IF holder = Nobody /\ Spare(used - k, max) THEN asleep ELSE {})
    /\ asleep' = asleep \ back
    /\ UNCHANGED <<holder, queue>>
Begin(f, back) ==
    /\ back = {}
    /\ IF holder = Nobody THEN holder' = f /\ UNCHANGED queue ELSE queue' = queue \cup {f} /\ UNCHANGED holder
    /\ UNCHANGED <<used, asleep>>
\* `next`: who frees next.  With another in line, it may come before sleepers have looked.
Done(f, max, back, next) ==
    /\ holder = f
    /\ (IF queue = {}
        THEN next = Nobody /\ back = (IF Spare(used, max) THEN asleep ELSE {})
        ELSE next \in queue /\ back \subseteq (IF Spare(used, max) THEN asleep ELSE {}))
    /\ holder' = next /\ queue' = queue \ {next}
    /\ asleep' = asleep \ back
    /\ UNCHANGED used
=============================================================================
