------------------------------ MODULE CakeTrace ------------------------------
(* Conformance of the layered hash store: whatever has been baked where, the   *)
(* store is the list of the hashes appended.  The list is kept as segments of  *)
(* consecutive ids; recorded answers are run-length compressed as              *)
(* <<first question, how many, stride, first answer, step>>.                   *)
EXTENDS TraceIO
(* While operations on files fail (lim, W05) an append or an opening may fail;  *)
(* what is left then is not asked: on with what was saved.                     *)
VARIABLES i, segs, saved, lim
vars == <<i, segs, saved, lim>>
C == INSTANCE SegList
Init == i = 1 /\ segs = <<>> /\ saved = <<>> /\ lim = FALSE
New(e) == e.op = "new" /\ e.err = "" /\ e.empty /\ e.exists /\ segs' = <<>> /\ lim' = FALSE /\ UNCHANGED saved
\* one run of appends: consecutive ids (step 1) that got consecutive indices
RECURSIVE AddRuns(_, _)
AddRuns(s, rs) == IF rs = <<>> THEN s
                  ELSE LET r == Head(rs) IN
                       IF (r[2] = 1 \/ r[5] = 1) /\ r[4] = C!Count(s) THEN AddRuns(C!Add(s, r[1], r[2]), Tail(rs)) ELSE <<>>
App(e) == e.op \in {"fill", "app"} /\ e.err = "" /\ UNCHANGED <<saved, lim>>
          /\ \E s \in {AddRuns(segs, e.runs)} : segs' = s /\ (s # <<>> \/ e.failed) = TRUE
          /\ (e.failed => lim) = TRUE
Save(e) == e.op = "save" /\ saved' = segs /\ UNCHANGED <<segs, lim>>
Again(e) == e.op = "again" /\ e.err = "" /\ segs' = saved /\ lim' = FALSE /\ UNCHANGED saved
Limit(e) == e.op = "limit" /\ lim' = TRUE /\ UNCHANGED <<segs, saved>>
Lift(e) == e.op = "lift" /\ lim' = FALSE /\ UNCHANGED <<segs, saved>>
FindsOk(e) == \A j \in 1..Len(e.fs) : LET r == e.fs[j] IN \A k \in 0..r[2] - 1 : C!IndexOf(segs, r[1] + k * r[3]) = r[4] + k * r[3] * r[5]
GetsOk(e) == \A j \in 1..Len(e.gs) : LET r == e.gs[j] IN \A k \in 0..r[2] - 1 :
                 LET p == r[1] + k * r[3]
                     v == r[4] + k * r[3] * r[5]
                 IN IF p \in 0..C!Count(segs) - 1 THEN v = C!HashAt(segs, p) ELSE v = -8
Q(e) == e.op = "q" /\ e.err = "" /\ FindsOk(e) = TRUE /\ GetsOk(e) = TRUE /\ UNCHANGED <<segs, saved, lim>>
Same(e) == e.op \in {"sync", "reopen"} /\ (e.err = "" \/ (lim /\ e.op = "reopen")) = TRUE /\ UNCHANGED <<segs, saved, lim>>
Next == \/ i <= Len(Tr) /\ (New(Tr[i]) \/ App(Tr[i]) \/ Q(Tr[i]) \/ Save(Tr[i]) \/ Again(Tr[i]) \/ Limit(Tr[i]) \/ Lift(Tr[i]) \/ Same(Tr[i])) /\ i' = i + 1
        \/ i > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pos == [i |-> i]     \* what error traces show (whole states can be huge)
=============================================================================
