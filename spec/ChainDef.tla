------------------------------ MODULE ChainDef ------------------------------
(* What a stored block chain is, independently of how it is stored: the       *)
(* blocks, transactions, inputs and outputs in chain order, numbered from 0,  *)
(* with the links between them, built block by block.                         *)
(*   blk[h+1] = [hash, first, n, neis, time, median]                          *)
(*   tx[t+1]  = [id, blk, ti, ni, to, no, neis]                               *)
(*   txi[i+1] = [tx, src, v]   src = the first transaction that has the hash  *)
(*   txo[o+1] = [tx, val, adr, h]  h = number of the first output that pays   *)
(*                                 the address: that is the address's number  *)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE SequencesExt

Nothing == [x \in {} |-> 0]
EmptyChain == [blk |-> <<>>, tx |-> <<>>, txi |-> <<>>, txo |-> <<>>, txAt |-> Nothing, adrAt |-> Nothing, outs |-> Nothing]
At(f, k, other) == IF k \in DOMAIN f THEN f[k] ELSE other

\* A time is a pair: the number of seconds from 2^31, by which times compare, and the time as it is written.
\* the protocol's median time past, at and including the last element of ts, as it is written
Sooner(a, b) == a[1] < b[1]
MedianOf(ts) == LET w == IF Len(ts) > 11 THEN SubSeq(ts, Len(ts) - 10, Len(ts)) ELSE ts
                    s == SortSeq(w, Sooner)
                IN  s[(Len(s) \div 2) + 1][2]

RECURSIVE AddOuts(_, _, _)
AddOuts(C, t, outs) ==
  IF outs = <<>> THEN C ELSE
  LET o == Len(C.txo)
      a == Head(outs)[2]
      h == At(C.adrAt, a, o)
      D == [C EXCEPT !.txo = Append(@, [tx |-> t, val |-> Head(outs)[1], adr |-> a, h |-> h]),
                     !.adrAt = IF a \in DOMAIN @ THEN @ ELSE (a :> o) @@ @,
                     !.outs = IF h \in DOMAIN @ THEN [@ EXCEPT ![h] = Append(@, o)] ELSE (h :> <<o>>) @@ @]
  IN  AddOuts(D, t, Tail(outs))

AddTx(C, b, x) ==
  LET t == Len(C.tx)
      C1 == [C EXCEPT !.tx = Append(@, [id |-> x.id, blk |-> b, ti |-> Len(C.txi), ni |-> Len(x.ins),
                                        to |-> Len(C.txo), no |-> Len(x.outs), neis |-> x.neis]),
                      !.txAt = IF x.id \in DOMAIN @ THEN @ ELSE (x.id :> t) @@ @]
      C2 == [C1 EXCEPT !.txi = @ \o [k \in 1..Len(x.ins) |-> [tx |-> t, src |-> At(C1.txAt, x.ins[k][1], -1), v |-> x.ins[k][2]]]]
  IN  AddOuts(C2, t, x.outs)

RECURSIVE AddTxs(_, _, _)
AddTxs(C, b, xs) == IF xs = <<>> THEN C ELSE AddTxs(AddTx(C, b, Head(xs)), b, Tail(xs))

Times(C) == [k \in 1..Len(C.blk) |-> C.blk[k].time]
AddBlock(C, e) ==
  LET b == Len(C.blk)
      ts == Append(Times(C), e.time)
      C1 == [C EXCEPT !.blk = Append(@, [hash |-> e.hash, first |-> Len(C.tx), n |-> Len(e.txs), time |-> e.time,
                                         median |-> MedianOf(ts), neis |-> e.neis])]
  IN  AddTxs(C1, b, e.txs)

\* all that a later reader may be told
TxsOf(C, b)  == [k \in 1..C.blk[b + 1].n |-> C.blk[b + 1].first + k - 1]
TxisOf(C, t) == [k \in 1..C.tx[t + 1].ni |-> C.tx[t + 1].ti + k - 1]
TxosOf(C, t) == [k \in 1..C.tx[t + 1].no |-> C.tx[t + 1].to + k - 1]
\* the output an input spends
SpentBy(C, i) == C.tx[C.txi[i + 1].src + 1].to + C.txi[i + 1].v
=============================================================================
