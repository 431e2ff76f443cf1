---------------------------- MODULE WorkerPoolMC ----------------------------
(* Exhaustive: T tasks sent in any order by anybody over an unbuffered        *)
(* channel to W workers; checks that the implementation-level pool (a worker  *)
(* loop per goroutine) refines WorkerPool and finishes every accepted task.   *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS T, W
VARIABLES st, w, sent, wk, closed
vars == <<st, w, sent, wk, closed>>
P == INSTANCE WorkerPool
Tasks == 1..T
Init == st = <<>> /\ w = W /\ sent = {} /\ wk = [k \in 1..W |-> 0] /\ closed = FALSE
Take(k) == ~closed /\ wk[k] = 0 /\ \E t \in Tasks \ sent : sent' = sent \cup {t} /\ wk' = [wk EXCEPT ![k] = t] /\ P!Start(t) /\ UNCHANGED <<w, closed>>
Run(k)  == wk[k] # 0 /\ \E e \in {0, 1} : P!End(wk[k], e) /\ UNCHANGED <<w, sent, wk, closed>>
Tell(k) == wk[k] # 0 /\ P!SetErr(wk[k], IF wk[k] \in DOMAIN st THEN st[wk[k]].e ELSE 0) /\ UNCHANGED <<w, sent, wk, closed>>
Mark(k) == wk[k] # 0 /\ P!Done(wk[k]) /\ wk' = [wk EXCEPT ![k] = 0] /\ UNCHANGED <<w, sent, closed>>
Close == ~closed /\ closed' = TRUE /\ UNCHANGED <<st, w, sent, wk>>
End == closed /\ P!InProgress = {} /\ UNCHANGED vars
Work == \E k \in 1..W : Run(k) \/ Tell(k) \/ Mark(k)
Next == (\E k \in 1..W : Take(k)) \/ Work \/ Close \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)
AtMostW == Cardinality(P!InProgress) <= W
Accepted == \A t \in sent : t \in DOMAIN st
AllDone == \A t \in Tasks : (t \in sent) ~> (t \in DOMAIN st /\ st[t].ph = "done")
Together == ~(Cardinality(P!InProgress) = W)   \* expected to be violated: W tasks can be in progress together
=============================================================================
