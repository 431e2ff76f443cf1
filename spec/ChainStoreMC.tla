---------------------------- MODULE ChainStoreMC ----------------------------
(* Exhaustive check, on all small chains, of the way a chain is stored: phase *)
(* one gathers hash lists, phase two answers "first index of a hash", phase   *)
(* three appends words to the files, where for each transaction the inputs    *)
(* are written by a task running beside the one that writes the outputs.      *)
(* At the end everything read back through the files is what the chain says.  *)
EXTENDS ChainFiles, FiniteSets
CONSTANTS MaxTx, MaxBlk, MaxIn, MaxOut, NA
VARIABLES C, phase, F, M, L, tx, ti, to
vars == <<C, phase, F, M, L, tx, ti, to>>
Adr == 1..NA
W(w, k) == [w |-> w, k |-> k]
Idle == W("idle", 0)

Init == /\ C = EmptyChain /\ phase = "mine"
        /\ F = [n \in FileNames |-> <<>>] /\ M = Nothing /\ L = HashLists(EmptyChain)
        /\ tx = 0 /\ ti = Idle /\ to = Idle

OutSeqs == UNION {[1..n -> Adr] : n \in 1..MaxOut}
Outs(s) == [k \in DOMAIN s |-> <<k, s[k]>>]
Ref(o) == <<C.tx[C.txo[o + 1].tx + 1].id, o - C.tx[C.txo[o + 1].tx + 1].to>>
Spendable == {o \in 0..Len(C.txo) - 1 : C.txAt[C.tx[C.txo[o + 1].tx + 1].id] = C.txo[o + 1].tx}     \* double spends are of no concern here
InSeqs == UNION {[1..n -> Spendable] : n \in 1..MaxIn}
\* a transaction's identity is given by its content; a coinbase's by its outputs alone, so that it can be repeated
Coinbase(s) == [id |-> <<"cb", s>>, ins |-> <<>>, outs |-> Outs(s), neis |-> Nothing]
Spend(i, s) == [id |-> <<"tx", Len(C.tx)>>, ins |-> [k \in DOMAIN i |-> Ref(i[k])], outs |-> Outs(s), neis |-> Nothing]

NewBlock == /\ phase = "mine" /\ Len(C.blk) < MaxBlk /\ Len(C.tx) < MaxTx
            /\ \E s \in OutSeqs : C' = AddBlock(C, [hash |-> <<"b", Len(C.blk)>>, time |-> <<Len(C.blk), "">>, neis |-> Nothing, txs |-> <<Coinbase(s)>>])
            /\ UNCHANGED <<phase, F, M, L, tx, ti, to>>
NewTx == /\ phase = "mine" /\ Len(C.tx) < MaxTx /\ C.blk # <<>>
         /\ \E s \in OutSeqs, i \in InSeqs :
              C' = [AddTx(C, Len(C.blk) - 1, Spend(i, s)) EXCEPT !.blk[Len(C.blk)].n = @ + 1]
         /\ UNCHANGED <<phase, F, M, L, tx, ti, to>>
\* phases one and two
Gather == /\ phase = "mine" /\ C.blk # <<>> /\ phase' = "store" /\ L' = HashLists(C)
          /\ UNCHANGED <<C, F, M, tx, ti, to>>
\* phase three
Wr(f, off, w) == LET old == f IN [k \in 1..(IF off < Len(old) THEN Len(old) ELSE off + 1) |->
                                    IF k = off + 1 THEN w ELSE IF k <= Len(old) THEN old[k] ELSE 0]
IsFirstOfBlock(t) == t = 0 \/ C.tx[t].blk # C.tx[t + 1].blk
StartTx == /\ phase = "store" /\ ti = Idle /\ to = Idle /\ tx < Len(L.transactions)
           /\ LET b == C.tx[tx + 1].blk
                  f1 == [F EXCEPT !["Parents/parentblockoftrans"] = Append(@, b)]
              IN  F' = IF IsFirstOfBlock(tx) THEN [f1 EXCEPT !["Blocks/firsttrans"] = Append(@, tx)] ELSE f1
           /\ ti' = W("start", 0) /\ to' = W("start", 0) /\ UNCHANGED <<C, phase, M, L, tx>>
TxiStart == /\ ti.w = "start" /\ F' = [F EXCEPT !["Transactions/firsttxi"] = Append(@, Len(F["TransactionInputs/tx"]))]
            /\ ti' = IF C.tx[tx + 1].ni = 0 THEN W("done", 0) ELSE W("tx", 1)
            /\ UNCHANGED <<C, phase, M, L, tx, to>>
TxiWord == /\ ti.w \notin {"idle", "start", "done"}
           /\ LET k == ti.k
                  x == C.txi[C.tx[tx + 1].ti + k]
              IN  \/ ti.w = "tx" /\ F' = [F EXCEPT !["TransactionInputs/tx"] = Append(@, RIndexOf(L.transactions, C.tx[x.src + 1].id))] /\ ti' = W("vout", k)
                  \/ ti.w = "vout" /\ F' = [F EXCEPT !["TransactionInputs/vout"] = Append(@, x.v)] /\ ti' = W("parent", k)
                  \/ /\ ti.w = "parent" /\ F' = [F EXCEPT !["Parents/parenttransoftxi"] = Append(@, tx)]
                     /\ ti' = IF k = C.tx[tx + 1].ni THEN W("done", 0) ELSE W("tx", k + 1)
           /\ UNCHANGED <<C, phase, M, L, tx, to>>
TxoStart == /\ to.w = "start" /\ F' = [F EXCEPT !["Transactions/firsttxo"] = Append(@, Len(F["TransactionOutputs/value"]))]
            /\ to' = W("value", 1) /\ UNCHANGED <<C, phase, M, L, tx, ti>>
TxoWord == /\ to.w \notin {"idle", "start", "done"}
           /\ LET k == to.k
                  x == C.txo[C.tx[tx + 1].to + k]
                  o == Len(F["Parents/parenttransoftxo"])
                  h == RIndexOf(L.addresses, x.adr)
              IN  \/ to.w = "value" /\ F' = [F EXCEPT !["TransactionOutputs/value"] = Append(@, x.val)] /\ to' = W("adr", k) /\ UNCHANGED M
                  \/ /\ to.w = "adr" /\ to' = W("rest", k)
                     /\ IF Len(F["Addresses/firsttxo"]) > h
                        THEN M' = (h :> Append(At(M, h, <<>>), o)) @@ M /\ UNCHANGED F
                        ELSE F' = [F EXCEPT !["Addresses/firsttxo"] = Wr(@, h, o)] /\ UNCHANGED M
                  \/ /\ to.w = "rest" /\ UNCHANGED M
                     /\ F' = [F EXCEPT !["TransactionOutputs/address"] = Append(@, h), !["Parents/parenttransoftxo"] = Append(@, tx),
                                       !["TransactionOutputs/spenttotxi"] = Append(@, 0)]
                     /\ to' = IF k = C.tx[tx + 1].no THEN W("done", 0) ELSE W("value", k + 1)
           /\ UNCHANGED <<C, phase, L, tx, ti>>
EndTx == /\ ti.w = "done" /\ to.w = "done" /\ ti' = Idle /\ to' = Idle /\ tx' = tx + 1
         /\ UNCHANGED <<C, phase, F, M, L>>
Finished == phase = "store" /\ tx = Len(L.transactions)
Next == NewBlock \/ NewTx \/ Gather \/ StartTx \/ TxiStart \/ TxiWord \/ TxoStart \/ TxoWord \/ EndTx \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Quiet == ti = Idle /\ to = Idle /\ phase = "store"
\* the layout: at every quiescent point the files are those of the transactions stored so far; at the end, of the chain
Layout == Finished => \A n \in FileNames : F[n] = FileOf(C, n)
Reads == Finished =>
  /\ \A b \in 0..Len(C.blk) - 1 : RTxsOf(F, L, b) = TxsOf(C, b)
  /\ \A t \in 0..Len(C.tx) - 1 : /\ RTxisOf(F, L, t) = TxisOf(C, t) /\ RTxosOf(F, L, t) = TxosOf(C, t)
                                 /\ L.transactions[RIndexOf(L.transactions, C.tx[t + 1].id) + 1] = C.tx[t + 1].id
  /\ \A i \in 0..Len(C.txi) - 1 : RSpentBy(F, i) = SpentBy(C, i)
  /\ \A h \in DOMAIN C.outs : RTxosOfAdr(F, M, h) = C.outs[h]
\* what the definition itself promises: links are mutually consistent
Links == /\ \A t \in 0..Len(C.tx) - 1 : \E k \in DOMAIN TxsOf(C, C.tx[t + 1].blk) : TxsOf(C, C.tx[t + 1].blk)[k] = t
         /\ \A i \in 0..Len(C.txi) - 1 : /\ \E k \in DOMAIN TxisOf(C, C.txi[i + 1].tx) : TxisOf(C, C.txi[i + 1].tx)[k] = i
                                         /\ SpentBy(C, i) < Len(C.txo) /\ C.txo[SpentBy(C, i) + 1].tx = C.txi[i + 1].src
         /\ \A o \in 0..Len(C.txo) - 1 : /\ \E k \in DOMAIN TxosOf(C, C.txo[o + 1].tx) : TxosOf(C, C.txo[o + 1].tx)[k] = o
                                         /\ Cardinality({k \in DOMAIN C.outs[C.txo[o + 1].h] : C.outs[C.txo[o + 1].h][k] = o}) = 1
                                         /\ C.adrAt[C.txo[o + 1].adr] = C.txo[o + 1].h
         /\ \A h \in DOMAIN C.outs : \A j, k \in DOMAIN C.outs[h] : (j < k => C.outs[h][j] < C.outs[h][k])
\* never more written than there is
Bounded == Quiet => /\ Len(F["Transactions/firsttxi"]) = tx /\ Len(F["Transactions/firsttxo"]) = tx
                    /\ Len(F["TransactionInputs/tx"]) = Len(F["TransactionInputs/vout"])
=============================================================================
