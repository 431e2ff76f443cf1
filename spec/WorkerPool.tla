----------------------------- MODULE WorkerPool -----------------------------
(* The worker pool: a task is started by a free worker, ends with an error of *)
(* its own (0 = none), is given that error, is marked done; at most W tasks   *)
(* are in progress.                                                           *)
EXTENDS Integers, FiniteSets
VARIABLES st,    \* task -> [ph |-> "run"|"ended"|"told"|"done", e |-> error]
          w      \* number of workers
InProgress == {t \in DOMAIN st : st[t].ph # "done"}
Put(t, r) == st' = [x \in DOMAIN st \cup {t} |-> IF x = t THEN r ELSE st[x]]
Start(t)     == t \notin DOMAIN st /\ Cardinality(InProgress) < w /\ Put(t, [ph |-> "run", e |-> 0])
End(t, e)    == t \in DOMAIN st /\ st[t].ph = "run"   /\ Put(t, [ph |-> "ended", e |-> e])
SetErr(t, e) == t \in DOMAIN st /\ st[t].ph = "ended" /\ st[t].e = e /\ Put(t, [ph |-> "told", e |-> e])
Done(t)      == t \in DOMAIN st /\ st[t].ph = "told"  /\ Put(t, [ph |-> "done", e |-> st[t].e])
=============================================================================
