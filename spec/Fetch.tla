-------------------------------- MODULE Fetch --------------------------------
(* Workers fetch the blocks of a stream of hashes: hashes are numbered as they*)
(* come; each block is tried up to three times, a try that fails may leave    *)
(* anything behind in the block; every block comes out once, and the output   *)
(* is closed after the last.                                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, T
VARIABLES next, job, tries, content, out, closed
vars == <<next, job, tries, content, out, closed>>
Workers == 1..T
Init == next = 0 /\ job = [w \in Workers |-> -1] /\ tries = [h \in 0..N - 1 |-> 0] /\ content = [h \in 0..N - 1 |-> "none"] /\ out = <<>> /\ closed = FALSE
Take(w) == /\ job[w] = -1 /\ next < N /\ job' = [job EXCEPT ![w] = next] /\ next' = next + 1 /\ UNCHANGED <<tries, content, out, closed>>
\* the node's failures are within the budget
Try(w)  == /\ job[w] >= 0 /\ content[job[w]] # "whole"
           /\ \E r \in (IF tries[job[w]] < 2 THEN {"none", "part", "whole"} ELSE {"whole"}) :
                /\ content' = [content EXCEPT ![job[w]] = r] /\ tries' = [tries EXCEPT ![job[w]] = @ + 1]
           /\ UNCHANGED <<next, job, out, closed>>
Emit(w) == /\ job[w] >= 0 /\ content[job[w]] = "whole" /\ out' = Append(out, job[w]) /\ job' = [job EXCEPT ![w] = -1]
           /\ UNCHANGED <<next, tries, content, closed>>
Close   == /\ next = N /\ (\A w \in Workers : job[w] = -1) /\ ~closed /\ closed' = TRUE /\ UNCHANGED <<next, job, tries, content, out>>
Next == (\E w \in Workers : Take(w) \/ Try(w) \/ Emit(w)) \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == \A j, k \in DOMAIN out : out[j] = out[k] => j = k
Whole == \A j \in DOMAIN out : content[out[j]] = "whole"
All == closed => {out[j] : j \in DOMAIN out} = 0..N - 1
Done == <>closed
=============================================================================
