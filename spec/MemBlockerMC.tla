---------------------------- MODULE MemBlockerMC ----------------------------
(* The blocker as it is built: a mutex, a condition variable, and a check of  *)
(* the memory in use under the mutex.  Woken waiters have to take the mutex   *)
(* again and look again.  All = FALSE wakes one sleeper per freeing instead   *)
(* of all of them: EveryoneGoesOn then fails (a waiter sleeps on although     *)
(* memory is spare and nobody will ever tell it).                             *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS W, F, Top, Max, All
VARIABLES used, lock, pc, fpc, seen, budget
vars == <<used, lock, pc, fpc, seen, budget>>
Ws == 1..W
Fs == 1..F
Init == /\ used \in 0..Top /\ lock = <<"free", 0>> /\ pc = [w \in Ws |-> "out"] /\ fpc = [f \in Fs |-> "out"]
        /\ seen = [w \in Ws |-> 0] /\ budget = 2
Free == lock = <<"free", 0>>
Grab(w) == pc[w] \in {"out", "woken"} /\ Free /\ lock' = <<"w", w>> /\ pc' = [pc EXCEPT ![w] = "in"] /\ UNCHANGED <<used, fpc, seen, budget>>
Look(w) == pc[w] = "in" /\ seen' = [seen EXCEPT ![w] = used] /\ lock' = <<"free", 0>>
           /\ pc' = [pc EXCEPT ![w] = IF used < Max THEN "gone" ELSE "asleep"] /\ UNCHANGED <<used, fpc, budget>>
Back(w) == pc[w] = "gone" /\ pc' = [pc EXCEPT ![w] = "back"] /\ UNCHANGED <<used, lock, fpc, seen, budget>>
FGrab(f) == fpc[f] = "out" /\ Free /\ lock' = <<"f", f>> /\ fpc' = [fpc EXCEPT ![f] = "in"] /\ UNCHANGED <<used, pc, seen, budget>>
FDrop(f) == fpc[f] = "in" /\ used' \in 0..used /\ fpc' = [fpc EXCEPT ![f] = "freed"] /\ UNCHANGED <<lock, pc, seen, budget>>
FLeave(f) == fpc[f] = "freed" /\ lock' = <<"free", 0>> /\ fpc' = [fpc EXCEPT ![f] = "tell"] /\ UNCHANGED <<used, pc, seen, budget>>
Asleep == {w \in Ws : pc[w] = "asleep"}
FTell(f) == /\ fpc[f] = "tell" /\ fpc' = [fpc EXCEPT ![f] = "done"]
            /\ (IF All \/ Asleep = {} THEN pc' = [w \in Ws |-> IF pc[w] = "asleep" THEN "woken" ELSE pc[w]]
                ELSE \E w \in Asleep : pc' = [pc EXCEPT ![w] = "woken"])
            /\ UNCHANGED <<used, lock, seen, budget>>
Take == budget > 0 /\ used < Top /\ used' = used + 1 /\ budget' = budget - 1 /\ UNCHANGED <<lock, pc, fpc, seen>>
WStep == \E w \in Ws : Grab(w) \/ Look(w) \/ Back(w)
FStep == \E f \in Fs : FGrab(f) \/ FDrop(f) \/ FLeave(f) \/ FTell(f)
Idle == ~ENABLED (WStep \/ FStep \/ Take) /\ UNCHANGED vars
Next == WStep \/ FStep \/ Take \/ Idle
Fair == /\ \A w \in Ws : SF_vars(Grab(w)) /\ WF_vars(Look(w)) /\ WF_vars(Back(w))
        /\ \A f \in Fs : SF_vars(FGrab(f)) /\ WF_vars(FDrop(f)) /\ WF_vars(FLeave(f)) /\ WF_vars(FTell(f))
Spec == Init /\ [][Next]_vars /\ Fair
NotBefore == \A w \in Ws : pc[w] \in {"gone", "back"} => seen[w] < Max
OneAtATime == Cardinality({w \in Ws : pc[w] = "in"} \cup {f + W : f \in {g \in Fs : fpc[g] \in {"in", "freed"}}}) <= 1
\* whoever sleeps although memory stays spare is waiting for a freeing that has not been told yet
EveryoneGoesOn == \A w \in Ws : [](pc[w] = "asleep" /\ used < Max /\ (\E f \in Fs : fpc[f] # "done") => <>(pc[w] # "asleep" \/ used >= Max))
=============================================================================
