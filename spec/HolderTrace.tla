----------------------------- MODULE HolderTrace -----------------------------
(* Conformance of both block holders to BlockHolder.  Hashes are names; times *)
(* are pairs of 16-bit words; difficulties are base-256 digits.               *)
EXTENDS TraceIO
VARIABLES i, B
vars == <<i, B>>
H == INSTANCE BlockHolder WITH Width <- 11
Df == INSTANCE Difficulty
Init == i = 1 /\ B = <<>>
New(e) == e.op = "new" /\ B' = <<>>
Fed(e) == e.op = "fed" /\ B' = Append(B, e.b)
Earlier(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Follows(k) == IF k = 0 THEN B[1].hash = "g" ELSE B[k + 1].prev = B[k].hash
Takes(e) == /\ e.op = "take" /\ UNCHANGED B /\ e.ok = Follows(e.k)
            /\ e.ok => LET b == B[e.k + 1]
                           ts == [j \in 1..(e.k + 1) |-> B[j].time]
                       IN  /\ e.hash = b.hash /\ (IF e.path = "cri" THEN TRUE ELSE e.height = e.k)
                           /\ e.neis.time = b.time /\ e.neis.mediantime = H!MedianBy(ts, Earlier) /\ Df!IsDifficulty(e.neis.difficulty, b.bits)
                           /\ e.neis.size = b.sizes[1] /\ e.neis.strippedsize = b.sizes[2] /\ e.neis.weight = b.sizes[3]
                           /\ Len(e.txs) = Len(b.txs)
                           /\ \A j \in DOMAIN e.txs :
                                LET g == e.txs[j]
                                    w == b.txs[j]
                                IN  /\ g.id = w.id /\ g.parents /\ g.outs = w.outs /\ g.sizes = w.sizes
                                    /\ g.ins = IF j = 1 THEN <<>> ELSE w.ins
End(e) == e.op = "end" /\ e.invalid /\ UNCHANGED B
\* what the indexer was told, sorted
RECURSIVE IdsOf(_)
IdsOf(k) == IF k = 0 THEN <<>> ELSE IdsOf(k - 1) \o [j \in DOMAIN B[k].txs |-> [id |-> B[k].txs[j].id, blk |-> k - 1]]
Notes(e) == /\ e.op = "notes" /\ UNCHANGED B
            /\ LET ns == [k \in DOMAIN B |-> Len(B[k].txs)]
                   all == IdsOf(Len(B))
               IN  /\ e.firsts = [k \in DOMAIN B |-> <<k - 1, H!Running(ns, k)>>]
                   /\ e.parents = [t \in DOMAIN all |-> <<t - 1, all[t].blk>>]
                   /\ e.hashes = [t \in DOMAIN all |-> <<t - 1, all[t].id>>]
Step(e) == New(e) \/ Fed(e) \/ Takes(e) \/ End(e) \/ Notes(e)
Next == \/ i <= Len(Tr) /\ Step(Tr[i]) /\ i' = i + 1
        \/ i > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == i
Pos == [i |-> i]     \* what error traces show (whole states can be huge)
=============================================================================
