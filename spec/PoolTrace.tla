----------------------------- MODULE PoolTrace ------------------------------
(* Conformance of the worker pool to WorkerPool.                              *)
EXTENDS TraceIO, FiniteSets
VARIABLES i, st, w
vars == <<i, st, w>>
P == INSTANCE WorkerPool
Init == i = 1 /\ st = <<>> /\ w = 0
Quiet(e) == e.ok /\ P!InProgress = {} /\ DOMAIN st = 1..e.count /\ UNCHANGED st
Step(e) == IF e.op = "new" THEN st' = <<>> /\ w' = e.w
           ELSE UNCHANGED w /\ CASE e.op = "start"  -> P!Start(e.t)
                                 [] e.op = "end"    -> P!End(e.t, e.e)
                                 [] e.op = "seterr" -> P!SetErr(e.t, e.e)
                                 [] e.op = "done"   -> P!Done(e.t)
                                 [] e.op = "quiet"  -> Quiet(e)
                                 [] e.op = "together" -> Quiet(e)
                                 [] OTHER -> FALSE
Next == \/ i <= Len(Tr) /\ Step(Tr[i]) /\ i' = i + 1
        \/ i > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pos == [i |-> i]     \* what error traces show (whole states can be huge)
=============================================================================
