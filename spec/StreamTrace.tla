----------------------------- MODULE StreamTrace -----------------------------
(* Conformance of header streaming and block fetching.  Hashes are told by    *)
(* their height in the node's chain (-1: not a hash of the chain); what a     *)
(* stream gave is told in runs <<first, number>> of consecutive heights.      *)
EXTENDS TraceIO
VARIABLES i, len, B
vars == <<i, len, B>>
Min2(a, b) == IF a < b THEN a ELSE b
Init == i = 1 /\ len = 0 /\ B = <<>>
New(e)   == e.op = "new" /\ len' = e.len /\ B' = <<>>
Block(e) == e.op = "block" /\ B' = Append(B, [hash |-> e.hash, txs |-> e.txs]) /\ UNCHANGED len
\* number of hashes streamed, being the first ones in order
Streamed(got) == IF got = <<>> THEN 0 ELSE IF Len(got) = 1 /\ got[1][1] = 0 THEN got[1][2] ELSE -1
Stream(e) == /\ e.op = "stream" /\ e.closed /\ UNCHANGED <<len, B>>
             /\ LET k == Streamed(e.got)
                IN  /\ k >= 0 /\ k <= Min2(e.n, e.len2)
                    /\ IF e.hit THEN e.err # "" ELSE e.err = "" /\ k >= Min2(e.n, len)
\* blocks fetched for the hashes of heights e.of: told in order of height
Fetched(e) == /\ e.op = "fetch" /\ e.closed /\ e.err = "" /\ UNCHANGED <<len, B>>
              /\ e.got = [k \in 1..Len(e.of) |-> LET b == B[e.of[k] + 1] IN
                            [h |-> k - 1, hash |-> b.hash, bhash |-> b.hash,
                             txs |-> [j \in DOMAIN b.txs |-> [id |-> b.txs[j].id, ins |-> b.txs[j].ins, outs |-> b.txs[j].outs]]]]
Step(e) == New(e) \/ Block(e) \/ Stream(e) \/ Fetched(e)
Next == \/ i <= Len(Tr) /\ Step(Tr[i]) /\ i' = i + 1
        \/ i > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == i
Pos == [i |-> i]     \* what error traces show (whole states can be huge)
=============================================================================
