------------------------------ MODULE HashTrace ------------------------------
(* Conformance of the hash stores to HashIndex.                                *)
(* kind "bins": the position of a repeated hash may read as the zero hash 0.   *)
EXTENDS TraceIO
(* lim: certain operations on files fail now (H04); then an answer may be an   *)
(* error, but is right if it is not.                                           *)
VARIABLES i, hs, kind, cap, lim
vars == <<i, hs, kind, cap, lim>>
H == INSTANCE HashIndex
Init == i = 1 /\ hs = <<>> /\ kind = "" /\ cap = 0 /\ lim = FALSE
New(e) == e.op = "new" /\ (e.err = "" \/ lim) = TRUE /\ hs' = <<>> /\ kind' = e.kind /\ cap' = e.cap /\ lim' = FALSE
Build(e) == e.op = "build" /\ (e.err = "" \/ lim) = TRUE /\ hs' = e.ids /\ kind' = e.kind /\ lim' = FALSE /\ UNCHANGED cap
Limit(e) == e.op = "limit" /\ lim' = TRUE /\ UNCHANGED <<hs, kind, cap>>
Lift(e) == e.op = "lift" /\ lim' = FALSE /\ UNCHANGED <<hs, kind, cap>>
App(e) == /\ e.op = "append" /\ UNCHANGED <<kind, cap, lim>>
          /\ \/ e.err = "" /\ e.i = Len(hs) /\ H!HAppend(e.h)
             \/ e.err # "" /\ (lim \/ (cap > 0 /\ Len(hs) >= cap)) = TRUE /\ UNCHANGED hs
\* a failed sync (and, while writes fail, a failed append or close) ends a history
Sync(e) == e.op = "sync" /\ e.err # "" /\ lim /\ UNCHANGED <<hs, kind, cap, lim>>
Reopen(e) == e.op = "reopen" /\ (e.err = "" \/ lim) = TRUE /\ UNCHANGED <<hs, kind, cap, lim>>
GetOk(p, h) == IF p \in 0..Len(hs) - 1
               THEN h = hs[p + 1] \/ (kind = "bins" /\ h = 0 /\ ~H!FirstAt(hs[p + 1], p))
               ELSE h = -8
Query(e) == /\ e.op = "q" /\ (e.err = "" \/ lim) = TRUE /\ UNCHANGED <<hs, kind, cap, lim>>
            /\ (e.n = Len(hs) \/ (lim /\ e.n = -9)) = TRUE
            \* "= TRUE": evaluated as expressions, not as a deep nest of actions
            /\ (\A k \in 1..Len(e.finds) : (H!IsIndexOf(e.finds[k], e.idx[k]) \/ (lim /\ e.idx[k] = -9))) = TRUE
            /\ (\A k \in 1..Len(e.gets) : (GetOk(e.gets[k], e.gh[k]) \/ (lim /\ e.gh[k] = -8))) = TRUE
Step(e) == New(e) \/ Limit(e) \/ Lift(e) \/ Sync(e) \/ Build(e) \/ App(e) \/ Reopen(e) \/ Query(e)
Next == \/ i <= Len(Tr) /\ Step(Tr[i]) /\ i' = i + 1
        \/ i > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pos == [i |-> i]     \* what error traces show (whole states can be huge)
=============================================================================
