----------------------------- MODULE BlockCodec ------------------------------
(* The binary form of a block, its sizes, and what the hashes are taken of.   *)
(* A byte string is a sequence of pieces <<hex, n>>: the bytes hex, n times.  *)
(* A block: [ver, prev, merkle, time, bits, nonce, txs]; a transaction:       *)
(* [ver, sw, ins, outs, lock, n]; an input: [src, v, sig, seq, wit, n]; an     *)
(* output: [val, scr, n]; each stands for n equal ones in a row.  sig, scr    *)
(* and the items of wit are pieces.  Numbers are sequences of 16-bit words,   *)
(* most significant first.                                                    *)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE FiniteSetsExt
LOCAL INSTANCE SequencesExt

Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex1(n) == Digit[(n \div 16) + 1] \o Digit[(n % 16) + 1]
Hex2(n) == Hex1(n % 256) \o Hex1(n \div 256)                 \* 16 bits, little endian
RECURSIVE LE(_)
LE(ws) == IF ws = <<>> THEN "" ELSE Hex2(ws[Len(ws)]) \o LE(SubSeq(ws, 1, Len(ws) - 1))
Compact(n) == IF n < 253 THEN Hex1(n) ELSE IF n < 65536 THEN "fd" \o Hex2(n) ELSE "fe" \o LE(<<n \div 65536, n % 65536>>)
CompactLen(n) == IF n < 253 THEN 1 ELSE IF n < 65536 THEN 3 ELSE 5

PLen(p) == (Len(p[1]) \div 2) * p[2]
RECURSIVE SumLen(_)
SumLen(b) == IF b = <<>> THEN 0 ELSE PLen(Head(b)) + SumLen(Tail(b))
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN s \o Rep(s, n - 1) ELSE LET h == Rep(s, n \div 2) IN h \o h
Flat(b) == FoldLeft(LAMBDA acc, p : acc \o Rep(p[1], p[2]), "", b)
\* a byte string, n times over
Again(b, n) == IF n = 1 THEN b ELSE << <<Flat(b), n>> >>
Lit(s) == << <<s, 1>> >>
VarBytes(p) == Lit(Compact(PLen(p))) \o <<p>>
RECURSIVE Total(_)
Total(items) == IF items = <<>> THEN 0 ELSE Head(items).n + Total(Tail(items))
Each(items, F(_)) == FoldLeft(LAMBDA acc, x : acc \o Again(F(x), x.n), <<>>, items)

In(i)   == Lit(i.src \o LE(i.v)) \o VarBytes(i.sig) \o Lit(LE(i.seq))
Out(o)  == Lit(LE(o.val)) \o VarBytes(o.scr)
Wit(i)  == FoldLeft(LAMBDA acc, p : acc \o VarBytes(p), Lit(Compact(Len(i.wit))), i.wit)
Core(t) == Lit(Compact(Total(t.ins))) \o Each(t.ins, In) \o Lit(Compact(Total(t.outs))) \o Each(t.outs, Out)
\* what the transaction's id is the hash of
Stripped(t) == Lit(LE(t.ver)) \o Core(t) \o Lit(LE(t.lock))
Tx(t)       == IF ~t.sw THEN Stripped(t) ELSE Lit(LE(t.ver) \o "0001") \o Core(t) \o Each(t.ins, Wit) \o Lit(LE(t.lock))
\* what the block's hash is the hash of
Header(b) == Lit(LE(b.ver) \o b.prev \o b.merkle \o LE(b.time) \o LE(b.bits) \o LE(b.nonce))
Body(b)   == Lit(Compact(Total(b.txs))) \o Each(b.txs, Tx)
Bin(b)    == Header(b) \o Body(b)

TxSize(t)     == SumLen(Tx(t))
TxStripped(t) == SumLen(Stripped(t))
TxWeight(t)   == 3 * TxStripped(t) + TxSize(t)
TxVSize(t)    == (TxWeight(t) + 3) \div 4
BSize(b)      == SumLen(Bin(b))
BStripped(b)  == FoldLeft(LAMBDA acc, t : acc + t.n * TxStripped(t), 80 + CompactLen(Total(b.txs)), b.txs)
BWeight(b)    == 3 * BStripped(b) + BSize(b)
=============================================================================
