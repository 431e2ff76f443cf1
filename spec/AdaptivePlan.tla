---------------------------- MODULE AdaptivePlan -----------------------------
(* The adaptive preloader: bins (with their counts of hashes) are taken in    *)
(* descending order into passes that fit the budget (a bin too big on its own *)
(* makes a pass of its own); the bins of a pass go to the worker with least   *)
(* work; a reader sends every hash of the pass to its bin's worker, over      *)
(* bounded channels; a worker which was given bins hands each over when the   *)
(* reader is done.  Exhaustive over every assignment of hashes to bins, every *)
(* budget, and every interleaving: each bin is written exactly once, with     *)
(* exactly its hashes in file order, the bin number of every hash is written  *)
(* in the first pass, and the whole always ends.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS BINS, THREADS, MaxLen, CHAN
VARIABLES list, budget, order, passBins, worker, todo, phase, pos, chan, got, out, closed, binNums, passNo, written
vars == <<list, budget, order, passBins, worker, todo, phase, pos, chan, got, out, closed, binNums, passNo, written>>
B == 0..BINS - 1
T == 1..THREADS
Count(b) == Cardinality({k \in 1..Len(list) : list[k] = b})
Sorted(o) == \A j, k \in 1..BINS : j < k => Count(o[j]) >= Count(o[k])
Perms == {o \in [1..BINS -> B] : \A j, k \in 1..BINS : j # k => o[j] # o[k]}
Init == /\ list \in UNION {[1..n -> B] : n \in 0..MaxLen}
        /\ budget \in 0..MaxLen + 1
        /\ order \in Perms /\ Sorted(order)        \* the sort is not stable: any such order
        /\ passBins = {} /\ worker = [b \in B |-> 0] /\ todo = B /\ phase = "design" /\ pos = 1
        /\ chan = [t \in T |-> <<>>] /\ got = [b \in B |-> <<>>] /\ out = {} /\ closed = FALSE
        /\ binNums = <<>> /\ passNo = 0 /\ written = [b \in B |-> <<>>]
\* the greedy knapsack
RECURSIVE Pick(_, _, _)
Pick(k, used, acc) ==
  IF k > BINS THEN acc
  ELSE LET b == order[k] IN
       IF b \in todo /\ (budget - used > Count(b) \/ acc = {}) THEN Pick(k + 1, used + Count(b), acc \cup {b})
       ELSE Pick(k + 1, used, acc)
Design == /\ phase = "design" /\ todo # {}
          /\ passBins' = Pick(1, 0, {}) /\ todo' = todo \ passBins' /\ phase' = "assign" /\ passNo' = passNo + 1
          /\ UNCHANGED <<list, budget, order, worker, pos, chan, got, out, closed, binNums, written>>
RECURSIVE Share(_, _, _)
Least(load) == CHOOSE t \in T : (\A u \in T : load[t] <= load[u]) /\ (\A u \in T : load[u] = load[t] => t <= u)
Share(k, load, w) ==
  IF k > BINS THEN w
  ELSE IF order[k] \in passBins THEN
         LET t == Least(load) IN Share(k + 1, [load EXCEPT ![t] = @ + Count(order[k])], [w EXCEPT ![order[k]] = t])
       ELSE Share(k + 1, load, w)
Assign == /\ phase = "assign" /\ worker' = Share(1, [t \in T |-> 0], [b \in B |-> 0]) /\ phase' = "run"
          /\ pos' = 1 /\ got' = [b \in B |-> <<>>] /\ out' = {} /\ closed' = FALSE
          /\ UNCHANGED <<list, budget, order, passBins, todo, chan, binNums, passNo, written>>
Feed == /\ phase = "run" /\ pos <= Len(list)
        /\ LET b == list[pos]
               w == worker[b]
           IN /\ IF w = 0 THEN UNCHANGED chan
                 ELSE Len(chan[w]) < CHAN /\ chan' = [chan EXCEPT ![w] = Append(@, <<b, pos>>)]
              /\ binNums' = IF passNo = 1 THEN Append(binNums, b) ELSE binNums
        /\ pos' = pos + 1
        /\ UNCHANGED <<list, budget, order, passBins, worker, todo, phase, got, out, closed, passNo, written>>
CloseAll == phase = "run" /\ pos > Len(list) /\ ~closed /\ closed' = TRUE
            /\ UNCHANGED <<list, budget, order, passBins, worker, todo, phase, pos, chan, got, out, binNums, passNo, written>>
Take(t) == /\ phase = "run" /\ chan[t] # <<>> /\ \E b \in B : worker[b] = t
           /\ LET m == Head(chan[t]) IN got' = [got EXCEPT ![m[1]] = Append(@, m[2])]
           /\ chan' = [chan EXCEPT ![t] = Tail(@)]
           /\ UNCHANGED <<list, budget, order, passBins, worker, todo, phase, pos, out, closed, binNums, passNo, written>>
Hand(b) == /\ phase = "run" /\ closed /\ worker[b] # 0 /\ chan[worker[b]] = <<>> /\ b \notin out
           /\ out' = out \cup {b}
           /\ UNCHANGED <<list, budget, order, passBins, worker, todo, phase, pos, chan, got, closed, binNums, passNo, written>>
Finish == /\ phase = "run" /\ closed /\ out = passBins
          /\ written' = [b \in B |-> IF b \in out THEN Append(written[b], got[b]) ELSE written[b]]
          /\ phase' = (IF todo = {} THEN "done" ELSE "design")
          /\ UNCHANGED <<list, budget, order, passBins, worker, todo, pos, chan, got, out, closed, binNums, passNo>>
Done == phase = "done" /\ UNCHANGED vars
Next == Design \/ Assign \/ Feed \/ CloseAll \/ (\E t \in T : Take(t)) \/ (\E b \in B : Hand(b)) \/ Finish \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Of(b) == SelectSeq([k \in 1..Len(list) |-> k], LAMBDA k : list[k] = b)
Right == phase = "done" => (binNums = list /\ \A b \in B : written[b] = <<Of(b)>>)
Ends == <>(phase = "done")
=============================================================================
