------------------------------ MODULE MapTrace ------------------------------
(* Conformance of the growing-array map store to IntArrayMap.                  *)
EXTENDS TraceIO
VARIABLES i, arr, synced
vars == <<i, arr, synced>>
M == INSTANCE IntArrayMap
Init == i = 1 /\ M!MInit
RunVals(seed, n) == [k \in 1..n |-> ((seed + k) % 200) + 1]
New(e)  == e.op = "new" /\ e.err = "" /\ arr' = <<>> /\ synced' = <<>>
App(e)  == e.op = "append" /\ e.err = "" /\ M!MAppend(e.key, <<e.v>>)
Run(e)  == e.op = "run" /\ e.err = "" /\ M!MAppend(e.key, RunVals(e.seed, e.n))
Get(e)  == e.op = "get" /\ e.err = "" /\ e.vals = M!Get(arr, e.key) /\ M!MSync
Sync(e) == /\ e.op \in {"sync", "flush"} /\ e.err = "" /\ M!MSync
           /\ \A j \in 1..Len(e.keys) : e.disk[j] = M!Get(arr, e.keys[j])   \* read-only opener
Reopen(e) == e.op = "reopen" /\ e.err = "" /\ UNCHANGED <<arr, synced>>
Crash(e) == /\ e.op = "crash" /\ e.err = ""
            /\ M!MCrash([k \in {e.keys[j] : j \in 1..Len(e.keys)} |->
                            e.disk[CHOOSE j \in 1..Len(e.keys) : e.keys[j] = k]])
Step(e) == New(e) \/ App(e) \/ Run(e) \/ Get(e) \/ Sync(e) \/ Reopen(e) \/ Crash(e)
Next == \/ i <= Len(Tr) /\ Step(Tr[i]) /\ i' = i + 1
        \/ i > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pos == [i |-> i]     \* what error traces show (whole states can be huge)
=============================================================================
