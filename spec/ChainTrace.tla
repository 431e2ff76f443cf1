----------------------------- MODULE ChainTrace -----------------------------
(* Conformance of an imported chain to ChainDef and ChainFiles.  The trace     *)
(* first gives the chain as the node has it (block events), then the phases of *)
(* the import, then what the files hold and what the readable chain answers.   *)
EXTENDS TraceIO
VARIABLES i, C, N, F, dig, Cs
vars == <<i, C, N, F, dig, Cs>>
(* N = number of blocks asked for; F = the expected files, computed once; dig = digests of the first import's files;
   Cs[n] = the chain of the first n blocks *)
D == INSTANCE ChainFiles
None == [x \in {} |-> 0]

Init == i = 1 /\ C = D!EmptyChain /\ N = 0 /\ F = None /\ dig = None /\ Cs = <<>>
Keep == UNCHANGED <<C, N, F, dig, Cs>>
New(e)   == e.op = "new" /\ C' = D!EmptyChain /\ N' = e.n /\ F' = None /\ dig' = None /\ Cs' = <<>>
Block(e) == e.op = "block" /\ C' = D!AddBlock(C, e) /\ Cs' = Append(Cs, C') /\ UNCHANGED <<N, F, dig>>
Layout(e) == /\ e.op = "start" /\ Len(C.blk) = N /\ F' = [n \in D!FileNames |-> D!FileOf(C, n)] /\ UNCHANGED <<C, N, dig, Cs>>

\* each phase ends, without error; every block was fetched and none given up
Phase(e) == e.op = "phase" /\ e.err = "" /\ Keep
\* an earlier attempt at a phase, which may end anyhow; it changes nothing about the chain that is to be stored
Attempt(e) == e.op = "attempt" /\ e.end \in {"killed", "error", "panic", "finished"} /\ Keep
\* where earlier attempts have left something, the phase may refuse to go ahead, but then it touches nothing
Refused(e) == /\ e.op = "refused" /\ e.before = e.after /\ (\E j \in 1..(i - 1) : Tr[j].op = "attempt" /\ Tr[j].phase = e.phase) = TRUE
              /\ Keep
Lists(e) == /\ e.op = "lists" /\ Keep
            /\ LET l == D!HashLists(C)
               IN  e.blocks = l.blocks /\ e.transactions = l.transactions /\ e.addresses = l.addresses
\* after a re-open in between, the lists hold what the first e.n blocks gave
HashCounts(e) == /\ e.op = "hashcounts" /\ e.err = "" /\ Keep /\ e.blocks = e.n
                 /\ LET t == C.blk[e.n].first + C.blk[e.n].n
                    IN  e.transactions = t /\ e.addresses = C.tx[t].to + C.tx[t].no
File(e)  == e.op = "file" /\ e.name \in D!FileNames /\ e.vals = F[e.name] /\ Keep
\* the extra numbers of blocks and transactions, in files by name
NeiOfBlk(b, name) == IF name = "mediantime" THEN C.blk[b + 1].median ELSE C.blk[b + 1].neis[name]
NeiFile(e) == /\ e.op = "nei" /\ Keep
              /\ e.vals = IF e.what = "blk" THEN [k \in 1..Len(C.blk) |-> NeiOfBlk(k - 1, e.name)] ELSE [k \in 1..Len(C.tx) |-> C.tx[k].neis[e.name]]
\* all imports of one chain write the same bytes
Digests(e) == e.op = "digests" /\ (dig = None \/ e.files = dig) /\ dig' = e.files /\ UNCHANGED <<C, N, F, Cs>>

\* what is on disk when the first e.n blocks have been synced, and what a process that starts then is told of an address
SLists(e) == /\ e.op = "slists" /\ Keep
             /\ LET l == D!HashLists(Cs[e.n])
                IN  e.blocks = l.blocks /\ e.transactions = l.transactions /\ e.addresses = l.addresses
SFile(e) == e.op = "sfile" /\ e.name \in D!FileNames /\ e.vals = D!FileOf(Cs[e.n], e.name) /\ Keep
SNei(e) == /\ e.op = "snei" /\ Keep
           /\ e.vals = IF e.what = "blk" THEN [k \in 1..e.n |-> NeiOfBlk(k - 1, e.name)] ELSE [k \in 1..Len(Cs[e.n].tx) |-> C.tx[k].neis[e.name]]
SAdr(e) == e.op = "sadr" /\ e.txos = Cs[e.n].outs[Cs[e.n].adrAt[e.hash]] /\ Keep
\* the chain stored anew from another source has the same files
Copied(e) == e.op = "copied" /\ e.to = e.from /\ Keep

\* ---- answers of the readable chain ----
\* what is asked while operations on files fail may fail, with an error (not a panic); an answer given is the right one
BadAsked(e) == e.op \in {"rblk", "rtrn", "rtxi", "rtxo", "radr", "find"} /\ Has(e, "bad") /\ e.err # "" /\ Keep
NB == Len(C.blk)
NT == Len(C.tx)
Counts(e) == /\ e.op = "counts" /\ e.blk = NB - 1 /\ e.trn = NT - 1 /\ e.txi = Len(C.txi) /\ e.txo = Len(C.txo)
             /\ e.genesis = 0 /\ e.gentx = 0 /\ Keep
Prev(h) == h - 1                       \* before the first: -1, the invalid handle
Nxt(h, n) == IF h + 1 < n THEN h + 1 ELSE -1
Neis(got, want) == DOMAIN got = DOMAIN want /\ \A k \in DOMAIN got : got[k] = want[k]
RBlk(e) == /\ e.op = "rblk" /\ Keep
           /\ LET b == C.blk[e.h + 1]
              IN  /\ e.err = "" /\ e.height = e.h /\ e.hash = b.hash /\ e.hhash = b.hash /\ e.n = b.n /\ e.txs = D!TxsOf(C, e.h)
                  /\ e.prev = Prev(e.h) /\ e.next = Nxt(e.h, NB)
                  /\ DOMAIN e.neis = DOMAIN b.neis \cup {"mediantime"}
                  /\ \A k \in DOMAIN e.neis : e.neis[k] = NeiOfBlk(e.h, k)
\* the hash of a transaction whose hash was used before may read as no hash
HashOk(t, h) == h = C.tx[t + 1].id \/ (C.txAt[C.tx[t + 1].id] # t /\ h = "0")
RTrn(e) == /\ e.op = "rtrn" /\ Keep
           /\ LET t == C.tx[e.h + 1]
              IN  /\ e.err = "" /\ e.height = e.h /\ HashOk(e.h, e.hash) /\ HashOk(e.h, e.hhash)
                  /\ e.ni = t.ni /\ e.txis = D!TxisOf(C, e.h) /\ e.no = t.no /\ e.txos = D!TxosOf(C, e.h)
                  /\ e.ptxis = e.txis /\ e.ptxos = e.txos /\ e.fti = t.ti /\ e.fto = t.to
                  /\ e.sats = [k \in 1..t.no |-> C.txo[t.to + k].val]
                  /\ e.prev = Prev(e.h) /\ e.next = Nxt(e.h, NT) /\ Neis(e.neis, t.neis)
                  /\ (Has(e, "pblk") => e.pblk = t.blk)
RTxi(e) == /\ e.op = "rtxi" /\ Keep
           /\ LET x == C.txi[e.h + 1]
              IN  /\ e.err = "" /\ e.src = x.src /\ e.v = x.v /\ e.txo = D!SpentBy(C, e.h)
                  /\ (Has(e, "ptrn") => e.ptrn = x.tx) /\ e.fsrc = x.src /\ e.fv = x.v
RTxo(e) == /\ e.op = "rtxo" /\ Keep
           /\ LET x == C.txo[e.h + 1]
              IN  /\ e.err = "" /\ e.val = x.val /\ e.fval = x.val /\ e.adr = x.h /\ e.adrhash = x.adr
                  /\ (Has(e, "ptrn") => e.ptrn = x.tx)
RAdr(e) == /\ e.op = "radr" /\ Keep
           /\ e.err = "" /\ e.hash = C.txo[e.h + 1].adr /\ e.n = Len(C.outs[e.h]) /\ e.txos = C.outs[e.h]
\* finding by hash: the first object that has it, or none
BlkAt(x) == IF \E k \in 1..NB : C.blk[k].hash = x THEN (CHOOSE k \in 1..NB : C.blk[k].hash = x) - 1 ELSE -1
Find(e) == /\ e.op = "find" /\ Keep
           /\ e.h = CASE e.what = "blk" -> BlkAt(e.id)
                      [] e.what = "trn" -> D!At(C.txAt, e.id, -1)
                      [] e.what = "adr" -> D!At(C.adrAt, e.id, -1)
           /\ e.h2 = e.h /\ (e.h = -1 \/ e.err = "")
           /\ (Has(e, "o0") => e.o0 = C.tx[e.h + 1].to) /\ (Has(e, "il") => e.il = C.tx[e.h + 1].ti + C.tx[e.h + 1].ni - 1)
           /\ (Has(e, "hs") => e.hs = e.h)
\* a walk by 'next' and one by 'previous'
Walk(e) == /\ e.op = "walk" /\ Keep
           /\ LET n == IF e.what = "blk" THEN NB ELSE NT
              IN  e.seq = [k \in 1..n |-> k - 1] /\ e.back = [k \in 1..n |-> n - k]

Step(e) == \/ New(e) \/ Block(e) \/ Layout(e) \/ Phase(e) \/ Attempt(e) \/ Refused(e) \/ Lists(e) \/ HashCounts(e) \/ File(e) \/ NeiFile(e) \/ Digests(e) \/ Copied(e)
           \/ SLists(e) \/ SFile(e) \/ SNei(e) \/ SAdr(e)
           \/ Counts(e) \/ RBlk(e) \/ RTrn(e) \/ RTxi(e) \/ RTxo(e) \/ RAdr(e) \/ Find(e) \/ Walk(e) \/ BadAsked(e)
Next == \/ i <= Len(Tr) /\ Step(Tr[i]) /\ i' = i + 1
        \/ i > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == i
Pos == [i |-> i]     \* what error traces show (whole states can be huge)
=============================================================================
