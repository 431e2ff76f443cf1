----------------------------- MODULE BlockTrace ------------------------------
(* Conformance of the binary and JSON parsers to BlockCodec.  Hash functions  *)
(* are not specified: the trace brings, for each byte string hashed, its hash *)
(* (sha: twice SHA-256; scr: SHA-256 of a script, by which scripts are told   *)
(* apart).  Blocks are parsed into slots, whose storage is used again.        *)
EXTENDS TraceIO
LOCAL INSTANCE SequencesExt
VARIABLES i, B, H, S, slot
vars == <<i, B, H, S, slot>>
D == INSTANCE BlockCodec
Df == INSTANCE Difficulty
None == [x \in {} |-> 0]
Init == i = 1 /\ B = <<>> /\ H = None /\ S = None /\ slot = None
New(e) == e.op = "new" /\ B' = <<>> /\ H' = None /\ S' = None /\ slot' = None
Block(e) == e.op = "block" /\ B' = Append(B, e.b) /\ UNCHANGED <<H, S, slot>>
Sha(e) == e.op = "sha" /\ H' = (e.c :> e.d) @@ H /\ UNCHANGED <<B, S, slot>>
Scr(e) == e.op = "scr" /\ S' = (e.c :> e.d) @@ S /\ UNCHANGED <<B, H, slot>>

\* equal neighbours are told once, with their number
Merge(s) == FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ acc[Len(acc)].x = x.x THEN [acc EXCEPT ![Len(acc)].n = @ + x.n] ELSE Append(acc, x), <<>>, s)
SeenTx(t) == [id |-> H[D!Stripped(t)], ver |-> t.ver, sw |-> t.sw,
              ins |-> Merge([k \in DOMAIN t.ins |-> [x |-> [src |-> t.ins[k].src, v |-> t.ins[k].v], n |-> t.ins[k].n]]),
              outs |-> Merge([k \in DOMAIN t.outs |-> [x |-> [val |-> t.outs[k].val, scr |-> S[t.outs[k].scr], len |-> D!PLen(t.outs[k].scr)], n |-> t.outs[k].n]]),
              size |-> D!TxSize(t), stripped |-> D!TxStripped(t), vsize |-> D!TxVSize(t), weight |-> D!TxWeight(t)]
SeenTxs(b) == Merge([k \in DOMAIN b.txs |-> [x |-> SeenTx(b.txs[k]), n |-> b.txs[k].n]])
BitsOf(b) == <<b.bits[1] \div 256, b.bits[1] % 256, b.bits[2] \div 256, b.bits[2] % 256>>
IsBlock(g, b) == /\ g.hash = H[D!Header(b)] /\ g.ver = b.ver /\ g.prev = b.prev /\ g.merkle = b.merkle /\ g.time = b.time /\ g.bits = b.bits /\ g.nonce = b.nonce
                 /\ g.size = D!BSize(b) /\ g.stripped = D!BStripped(b) /\ g.weight = D!BWeight(b)
                 /\ g.txs = SeenTxs(b)
                 /\ Df!IsDifficulty(g.diff, BitsOf(b))
Parse(e) == /\ e.op = "parse" /\ e.err = "" /\ IsBlock(e.blk, B[e.k])
            /\ slot' = (e.slot :> e.k) @@ slot /\ UNCHANGED <<B, H, S>>
\* a slot looked at again, other slots having been used meanwhile
Again(e) == e.op = "again" /\ IsBlock(e.blk, B[slot[e.slot]]) /\ UNCHANGED <<B, H, S, slot>>
\* truncated input: every one of the cuts tried is refused; the slot's content is then anything
Cuts(e)  == /\ e.op = "cuts" /\ e.accepted = <<>> /\ (\A k \in DOMAIN e.at : e.at[k] \in 0..(e.whole - 1)) = TRUE
            /\ (e.json \/ e.whole = D!BSize(B[e.k]))
            /\ slot' = [s \in DOMAIN slot \ {e.slot} |-> slot[s]] /\ UNCHANGED <<B, H, S>>
\* the transactions of a block, one by one, into storage of their own
Txs(e)   == /\ e.op = "txs" /\ e.err = "" /\ UNCHANGED <<B, H, S, slot>>
            /\ e.txs = SeenTxs(B[e.k])
            /\ e.used = Merge([k \in DOMAIN B[e.k].txs |-> [x |-> IF e.json THEN 0 ELSE D!TxSize(B[e.k].txs[k]), n |-> B[e.k].txs[k].n]])
Step(e) == New(e) \/ Block(e) \/ Sha(e) \/ Scr(e) \/ Parse(e) \/ Again(e) \/ Cuts(e) \/ Txs(e)
Next == \/ i <= Len(Tr) /\ Step(Tr[i]) /\ i' = i + 1
        \/ i > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == i
Pos == [i |-> i]     \* what error traces show (whole states can be huge)
=============================================================================
