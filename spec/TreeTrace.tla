------------------------------ MODULE TreeTrace ------------------------------
(* Conformance of the trees that tell hashes apart (ByteTree): the tree made     *)
(* from a list of distinct hashes, as its exported structure shows it, its       *)
(* lookups, its counts and its shape; the same tree stored as a chunk of bytes   *)
(* (NodeFormat), written to files and mapped back; and the small store in which  *)
(* the newest hashes wait.                                                       *)
EXTENDS TraceIO, FiniteSets
VARIABLES i, cf, hs, t, chunks, zero
vars == <<i, cf, hs, t, chunks, zero>>
B == INSTANCE ByteTree
N == INSTANCE NodeFormat
None == [n |-> 0]
Init == i = 1 /\ cf = None /\ hs = {} /\ t = <<>> /\ chunks = <<>> /\ zero = <<>>
NoMatch == IF cf.kind = "single" THEN 0 ELSE -1
\* ---- trees in memory
New(e) == e.op = "new" /\ cf' = None /\ hs' = {} /\ t' = <<>> /\ chunks' = <<>> /\ zero' = <<>>
Gen(e) == /\ e.op = "gen" /\ e.err = ""
          /\ cf' = [kind |-> e.kind, L |-> e.len, P |-> e.prefix, R |-> e.reass, n |-> Len(e.hashes)]
          /\ hs' = {[h |-> e.hashes[k], pi |-> e.pis[k]] : k \in 1..Len(e.hashes)}
          /\ t' = <<>> /\ UNCHANGED <<chunks, zero>>
Tree(e) == /\ e.op = "tree"
           /\ B!TreeOf2(e.nodes, hs, cf.L, cf.P, cf.R) = TRUE
           /\ (cf.kind = "single" => \A n \in B!Leaves(e.nodes) : \E x \in hs : x.pi = e.nodes[n].pi /\ x.h = e.nodes[n].h) = TRUE
           /\ t' = e.nodes /\ UNCHANGED <<cf, hs, chunks, zero>>
Answer(h) == IF cf.kind = "single" THEN B!LookupFull(t, h, 0) ELSE B!Lookup(t, cf.L, cf.P, h, -1)
Find(e) == e.op = "find" /\ (\A k \in 1..Len(e.hs) : e.as[k] = Answer(e.hs[k])) /\ UNCHANGED <<cf, hs, t, chunks, zero>>
Counts(e) == /\ e.op = "counts" /\ e.nodes = Len(t) /\ e.hashes = Cardinality(hs)
             /\ (Has(e, "leaves") => e.leaves = Cardinality(hs) /\ B!Rng(e.pis) = {x.pi : x \in hs} /\ Len(e.pis) = Cardinality(hs)) = TRUE
             /\ UNCHANGED <<cf, hs, t, chunks, zero>>
\* how many nodes there are with so many children on each level: <<level, children, nodes>>
Slots(n) == IF B!Leaf(t[n]) THEN 0 ELSE Len(t[n].sv)
Level(n) == t[n].lv
Keys == {<<t[n].lv, Slots(n)>> : n \in 1..Len(t)}
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
LevelsOf == {t[n].lv : n \in 1..Len(t)}
RECURSIVE LvOk(_, _)
LvOk(n, l) == t[n].lv = l /\ (B!Leaf(t[n]) \/ \A k \in 1..Len(t[n].sc) : LvOk(t[n].sc[k], l + 1))
Shape(e) == /\ e.op = "shape"
            /\ (t = <<>> \/ LvOk(1, cf.P)) = TRUE
            /\ B!Rng(e.hist) = {<<k[1], k[2], Cardinality({n \in 1..Len(t) : t[n].lv = k[1] /\ Slots(n) = k[2]})>> : k \in Keys}
            /\ (Has(e, "levels") => /\ e.levels = MaxOf({l + 1 : l \in LevelsOf})
                                    /\ e.most = MaxOf({Cardinality({n \in 1..Len(t) : t[n].lv = l}) : l \in LevelsOf})) = TRUE
            /\ UNCHANGED <<cf, hs, t, chunks, zero>>
\* the answers to all hashes of a big list, run-length compressed: <<first hash, how many, first index>>
BigOk(runs, first, n) == Len(runs) = (IF n = 0 THEN 0 ELSE 1) /\ (n = 0 \/ runs[1] = <<0, n, first>>)
Big(e) == e.op = "big" /\ e.err = "" /\ BigOk(e.runs, e.first, e.n) = TRUE /\ e.leaves \in {-1, e.n} /\ UNCHANGED <<cf, hs, t, chunks, zero>>
\* ---- chunks of bytes
ChunkFmt(e) == [W |-> e.W, H |-> e.H, R |-> cf.R, fullpad |-> 0, medpad |-> 0]
ChunkOk(e, ns) ==
     /\ \A r \in DOMAIN ns : ns[r].ok /\ (B!Leaf(ns[r]) \/ \A k \in 1..Len(ns[r].sc) : ns[r].sc[k] \in DOMAIN ns)
     /\ e.first = (IF hs = {} THEN 0 ELSE CHOOSE p \in {x.pi : x \in hs} : \A x \in hs : p <= x.pi)
     /\ \A hz \in {{[h |-> x.h, pi |-> x.pi - e.first + 1] : x \in hs}} : B!TreeOf2(ns, hz, cf.L, 0, cf.R)
Chunk(e) == /\ e.op = "chunk" /\ e.err = ""
            /\ (\A l \in 1..Len(e.levels) : N!LevelOk(ChunkFmt(e), e.levels[l])) = TRUE
            /\ \E ns \in {N!Nodes(ChunkFmt(e), e.levels)} :
                  /\ ChunkOk(e, ns) = TRUE
                  /\ chunks' = Append(chunks, [cf |-> cf, first |-> e.first, hi |-> e.hi, ns |-> ns, levels |-> e.levels])
            /\ UNCHANGED <<cf, hs, t, zero>>
CAnswer(c, h) == LET p == B!Lookup(c.ns, c.cf.L, 0, h, 0) IN IF p = 0 THEN -1 ELSE p - 1 + c.first
CFind(e) == e.op = "cfind" /\ (\A k \in 1..Len(e.hs) : e.as[k] = CAnswer(chunks[e.c], e.hs[k])) /\ UNCHANGED <<cf, hs, t, chunks, zero>>
\* ---- chunk files: one record per chunk, one file per level, chunk after chunk
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
\* first indices are recorded less 2^32 * hi
Info(c) == N!Bytes(c.first, 4) \o N!Bytes(c.hi, 4) \o <<Len(c.levels)>> \o Cat([l \in 1..Len(c.levels) |-> N!Bytes(Len(c.levels[l].ix), 8) \o N!Bytes(Len(c.levels[l].nb), 8)])
LevelFile(l) == Cat([k \in 1..Len(chunks) |-> IF l <= Len(chunks[k].levels) THEN chunks[k].levels[l].ix \o chunks[k].levels[l].nb ELSE <<>>])
Deepest == MaxOf({Len(chunks[k].levels) : k \in 1..Len(chunks)})
Files(e) == /\ e.op = "files" /\ e.err = ""
            /\ e.info = Cat([k \in 1..Len(chunks) |-> Info(chunks[k])])
            /\ Len(e.levels) = Deepest /\ \A l \in 1..Deepest : e.levels[l] = LevelFile(l)
            /\ UNCHANGED <<cf, hs, t, chunks, zero>>
Read(e) == /\ e.op = "read" /\ e.err = "" /\ Len(e.firsts) = Len(chunks)
           /\ \A k \in 1..Len(chunks) : e.firsts[k] = chunks[k].first /\ e.ls[k] = Len(chunks[k].levels)
           /\ UNCHANGED <<cf, hs, t, chunks, zero>>
\* ---- the small store: the list of the hashes appended (distinct identities)
ZPos(x) == IF \E k \in 1..Len(zero) : zero[k] = x THEN (CHOOSE k \in 1..Len(zero) : zero[k] = x) - 1 ELSE -1
Zero(e) == /\ e.op \in {"zapp", "zfind", "zget", "zcount", "zsync", "zreopen", "znew"} /\ e.err = ""
           /\ CASE e.op = "zapp" -> e.i = Len(zero) /\ zero' = Append(zero, e.x)
                [] e.op = "zfind" -> e.i = ZPos(e.x) /\ UNCHANGED zero
                [] e.op = "zget" -> (IF e.i \in 0..Len(zero) - 1 THEN e.ok /\ e.x = zero[e.i + 1] ELSE ~e.ok) /\ UNCHANGED zero
                [] e.op = "zcount" -> e.n = Len(zero) /\ UNCHANGED zero
                [] e.op = "znew" -> ~e.was /\ e.is /\ UNCHANGED zero
                [] OTHER -> UNCHANGED zero
           /\ UNCHANGED <<cf, hs, t, chunks>>
Next == \/ /\ i <= Len(Tr) /\ i' = i + 1
           /\ LET e == Tr[i] IN \/ New(e) \/ Gen(e) \/ Tree(e) \/ Find(e) \/ Counts(e) \/ Shape(e) \/ Big(e) \/ Chunk(e) \/ CFind(e)
                                \/ Files(e) \/ Read(e) \/ Zero(e)
        \/ i > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pos == [i |-> i]     \* what error traces show (whole states can be huge)
===============================================================================
