----------------------------- MODULE ChainFiles -----------------------------
(* How the stored chain is laid out in files, and how the readable chain gets *)
(* its answers back from them.  A word file is a sequence; Addresses/firsttxo *)
(* is written at address numbers and filled with zeros in between.            *)
EXTENDS ChainDef

Words(n, Val(_)) == [k \in 1..n |-> Val(k)]
\* address numbers are the numbers of their first outputs
FirstTxo(C) == LET firsts == {o \in 1..Len(C.txo) : C.txo[o].h = o - 1}
                   last == IF firsts = {} THEN 0 ELSE CHOOSE o \in firsts : \A p \in firsts : p <= o
               IN  [k \in 1..last |-> IF C.txo[k].h = k - 1 THEN k - 1 ELSE 0]
MoreTxos(C, h) == IF h \in DOMAIN C.outs THEN Tail(C.outs[h]) ELSE <<>>

\* phase one: the three hash lists
HashLists(C) == [blocks |-> [k \in 1..Len(C.blk) |-> C.blk[k].hash], transactions |-> [k \in 1..Len(C.tx) |-> C.tx[k].id],
                 addresses |-> [k \in 1..Len(C.txo) |-> C.txo[k].adr]]
\* phase three: the word files
FileOf(C, name) ==
  CASE name = "Blocks/firsttrans" -> [k \in 1..Len(C.blk) |-> C.blk[k].first]
    [] name = "Transactions/firsttxi" -> [k \in 1..Len(C.tx) |-> C.tx[k].ti]
    [] name = "Transactions/firsttxo" -> [k \in 1..Len(C.tx) |-> C.tx[k].to]
    [] name = "TransactionInputs/tx" -> [k \in 1..Len(C.txi) |-> C.txi[k].src]
    [] name = "TransactionInputs/vout" -> [k \in 1..Len(C.txi) |-> C.txi[k].v]
    [] name = "TransactionOutputs/value" -> [k \in 1..Len(C.txo) |-> C.txo[k].val]
    [] name = "TransactionOutputs/address" -> [k \in 1..Len(C.txo) |-> C.txo[k].h]
    [] name = "TransactionOutputs/spenttotxi" -> [k \in 1..Len(C.txo) |-> 0]
    [] name = "Addresses/firsttxo" -> FirstTxo(C)
    [] name = "Parents/parentblockoftrans" -> [k \in 1..Len(C.tx) |-> C.tx[k].blk]
    [] name = "Parents/parenttransoftxi" -> [k \in 1..Len(C.txi) |-> C.txi[k].tx]
    [] name = "Parents/parenttransoftxo" -> [k \in 1..Len(C.txo) |-> C.txo[k].tx]
    [] OTHER -> <<"no such file">>
FileNames == {"Blocks/firsttrans", "Transactions/firsttxi", "Transactions/firsttxo", "TransactionInputs/tx", "TransactionInputs/vout",
              "TransactionOutputs/value", "TransactionOutputs/address", "TransactionOutputs/spenttotxi", "Addresses/firsttxo",
              "Parents/parentblockoftrans", "Parents/parenttransoftxi", "Parents/parenttransoftxo"}

\* ---- the readable chain: answers computed from the files F, the address arrays M and the hash lists L only ----
RBlockCount(L) == Len(L.blocks)
RTxCount(L)    == Len(L.transactions)
RTxCountOf(F, L, b) == (IF b + 1 < RBlockCount(L) THEN F["Blocks/firsttrans"][b + 2] ELSE RTxCount(L)) - F["Blocks/firsttrans"][b + 1]
RTxsOf(F, L, b) == [k \in 1..RTxCountOf(F, L, b) |-> F["Blocks/firsttrans"][b + 1] + k - 1]
Span(F, first, whole, n, t) == (IF t + 1 < n THEN F[first][t + 2] ELSE Len(F[whole])) - F[first][t + 1]
RTxisOf(F, L, t) == [k \in 1..Span(F, "Transactions/firsttxi", "TransactionInputs/tx", RTxCount(L), t) |-> F["Transactions/firsttxi"][t + 1] + k - 1]
RTxosOf(F, L, t) == [k \in 1..Span(F, "Transactions/firsttxo", "TransactionOutputs/value", RTxCount(L), t) |-> F["Transactions/firsttxo"][t + 1] + k - 1]
RSpentBy(F, i) == F["Transactions/firsttxo"][F["TransactionInputs/tx"][i + 1] + 1] + F["TransactionInputs/vout"][i + 1]
RTxosOfAdr(F, M, h) == <<F["Addresses/firsttxo"][h + 1]>> \o At(M, h, <<>>)
RIndexOf(list, x) == IF \E k \in 1..Len(list) : list[k] = x
                     THEN (CHOOSE k \in 1..Len(list) : list[k] = x /\ \A j \in 1..(k - 1) : list[j] # x) - 1 ELSE -1
=============================================================================
