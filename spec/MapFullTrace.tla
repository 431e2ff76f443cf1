----------------------------- MODULE MapFullTrace -----------------------------
(* Conformance of the growing-array map store where the disk is full or the   *)
(* process out of descriptors for a while (F06).  Appends that failed may or  *)
(* may not have happened, so that for each key a set of arrays is possible;   *)
(* reading, flushing and syncing may fail too; but where one succeeds, what   *)
(* every append has acknowledged is there.                                    *)
EXTENDS TraceIO
VARIABLES i, poss,     \* key -> the arrays it may hold (keys never appended are absent)
          seen,        \* key -> what of its array has certainly been stored
          lim          \* limits have been set in this history
vars == <<i, poss, seen, lim>>
Init == i = 1 /\ poss = <<>> /\ seen = <<>> /\ lim = FALSE
RunVals(seed, n) == [k \in 1..n |-> ((seed + k) % 200) + 1]
Of(k) == IF k \in DOMAIN poss THEN poss[k] ELSE {<<>>}
Put(k, s) == [x \in DOMAIN poss \cup {k} |-> IF x = k THEN s ELSE poss[x]]
Stored(k) == IF k \in DOMAIN seen THEN seen[k] ELSE <<>>
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Vals(e) == IF e.op = "run" THEN RunVals(e.seed, e.n) ELSE <<e.v>>
New(e)   == e.op = "new" /\ e.err = "" /\ poss' = <<>> /\ seen' = <<>> /\ lim' = FALSE
Limit(e) == e.op = "limit" /\ lim' = TRUE /\ UNCHANGED <<poss, seen>>
App(e)   == /\ e.op \in {"append", "run"} /\ UNCHANGED <<lim, seen>>
            /\ IF e.err = "" THEN poss' = Put(e.key, {s \o Vals(e) : s \in Of(e.key)})
               \* the driver ends a run with the first append of it that fails
               ELSE lim /\ poss' = Put(e.key, {s \o SubSeq(Vals(e), 1, e.did + d) : s \in Of(e.key), d \in {0, 1}})
Get(e)   == /\ e.op = "get" /\ UNCHANGED lim
            /\ IF e.err = "" THEN e.vals \in Of(e.key) /\ poss' = Put(e.key, {e.vals})
                               /\ seen' = [k \in DOMAIN seen \cup {e.key} |-> IF k = e.key THEN e.vals ELSE seen[k]]
               ELSE lim /\ UNCHANGED <<poss, seen>>
Sync(e)  == /\ e.op \in {"sync", "flush"} /\ UNCHANGED lim
            /\ IF e.err # ""
               THEN /\ lim /\ UNCHANGED <<poss, seen>>
                    \* what had been stored stays, and nothing is invented
                    /\ \A j \in 1..Len(e.keys) : /\ IsPrefix(Stored(e.keys[j]), e.disk[j])
                                                 /\ \E s \in Of(e.keys[j]) : IsPrefix(e.disk[j], s)
               ELSE /\ \A j \in 1..Len(e.keys) : e.disk[j] \in Of(e.keys[j])      \* read-only opener
                    /\ poss' = [k \in DOMAIN poss |-> IF \E j \in 1..Len(e.keys) : e.keys[j] = k
                                                      THEN {e.disk[CHOOSE j \in 1..Len(e.keys) : e.keys[j] = k]} ELSE poss[k]]
                    /\ seen' = [k \in DOMAIN seen \cup {e.keys[j] : j \in 1..Len(e.keys)} |-> IF \E j \in 1..Len(e.keys) : e.keys[j] = k
                                                      THEN e.disk[CHOOSE j \in 1..Len(e.keys) : e.keys[j] = k] ELSE seen[k]]
Reopen(e) == e.op = "reopen" /\ (e.err = "" \/ lim) = TRUE /\ UNCHANGED <<poss, seen, lim>>
Step(e) == New(e) \/ Limit(e) \/ App(e) \/ Get(e) \/ Sync(e) \/ Reopen(e)
Next == \/ i <= Len(Tr) /\ Step(Tr[i]) /\ i' = i + 1
        \/ i > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pos == [i |-> i]     \* what error traces show (whole states can be huge)
=============================================================================
