------------------------------ MODULE ChainGen ------------------------------
(* Random valid chains, for import by the real code.  A chain is grown        *)
(* transaction by transaction; unspent outputs are known by block, transaction*)
(* and output number.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization, SequencesExt
VARIABLES chain, utxo, cbs, salt, done
vars == <<chain, utxo, cbs, salt, done>>
(* chain: sequence of blocks [dt, bits, txs]; cbs: coinbases so far, for duplication *)
NBlk == atoi(IOEnv.GEN_BLOCKS)
Busy == atoi(IOEnv.GEN_BUSY)           \* chance in ten that a further transaction is added to the block
NScr == atoi(IOEnv.GEN_SCRIPTS)        \* how many scripts there are
Dups == IOEnv.GEN_DUP = "1"
BigVal == IOEnv.GEN_BIG = "1"          \* values that only the binary form carries exactly
RE(S) == RandomElement(S)
Vals(d) == RE({"0", "1", "255", "256", "65535", "65536", "546", "5000000000", "2500000000", "4294967295", "4294967296", "1099511627776",
               "2100000000000000", "123456789", "100000000", "99999999", "281474976710656", "12345678901"})
BVals(d) == IF BigVal /\ RE(1..4) = 1 THEN RE({"72057594037927935", "72057594037927934", "9007199254740993", "4503599627370497", "36028797018963967"}) ELSE Vals(d)
Bits(d) == RE({"1d00ffff", "1d00ffff", "1b0404cb", "1a05db8b", "1c3fffc0", "1a44b9f2", "1900896c", "181bc330", "1a0ffff0"})
\* now and then a leap of decades; few, as times have 32 bits
Leap(d) == (d % 9 = 3) /\ d < 27 /\ RE(1..3) = 1
Dt(d) == CASE Leap(d) -> 950000000 [] RE(1..6) = 1 -> -RE({1, 300, 3000, 7000}) [] RE(1..6) = 1 -> 0 [] OTHER -> RE({1, 100, 599, 600, 601, 5000, 20000})
Outs(n) == [k \in 1..n |-> <<BVals(n + k), RE(0..NScr)>>]
NOuts(d) == RE({1, 1, 1, 2, 2, 3, 6})
Wit(d) == RE({0, 0, 1, 2})

Init == chain = <<>> /\ utxo = {} /\ cbs = <<>> /\ salt = 1 /\ done = FALSE
B == Len(chain)
Refs(b, t, n) == {<<b, t, v>> : v \in 0..(n - 1)}
Coinbase == /\ \E d \in {Dt(B)}, z \in {Bits(B)}, outs \in {Outs(NOuts(B))}, w \in {IF B = 0 THEN 0 ELSE Wit(B)},
                  q \in {IF Dups /\ cbs # <<>> /\ RE(1..4) = 1 THEN RE(1..Len(cbs)) ELSE 0} :
                 LET cb == IF q = 0 THEN [salt |-> salt, outs |-> outs, wit |-> w] ELSE cbs[q]
                 IN  /\ chain' = Append(chain, [dt |-> d, bits |-> IF B = 0 THEN "1d00ffff" ELSE z, txs |-> <<cb>>])
                     /\ cbs' = IF q = 0 THEN Append(cbs, cb) ELSE cbs
                     /\ utxo' = IF q = 0 THEN utxo \cup Refs(B, 0, Len(cb.outs)) ELSE utxo
            /\ salt' = salt + 1 /\ UNCHANGED done
Turn(s) == IF RE(1..2) = 1 THEN s ELSE Reverse(s)
Pick(n, S) == Turn(SetToSeq(RandomSubset(IF n > Cardinality(S) THEN Cardinality(S) ELSE n, S)))
Spend == /\ \E outs \in {Outs(NOuts(B))}, w \in {Wit(B)},
               refs \in {Pick(RE({1, 1, 1, 2, 3, 7}), utxo)} :
              LET t == Len(chain[B].txs)
                  x == [salt |-> salt, ins |-> refs, outs |-> outs, wit |-> w]
              IN  /\ chain' = [chain EXCEPT ![B].txs = Append(@, x)]
                  /\ utxo' = (utxo \ {refs[k] : k \in DOMAIN refs}) \cup Refs(B - 1, t, Len(outs))
         /\ salt' = salt + 1 /\ UNCHANGED <<cbs, done>>
\* at most so many transactions in all
Full == salt > 40 * NBlk
Finish == done' = TRUE /\ PrintT("GEN " \o ToJson(chain)) /\ UNCHANGED <<chain, utxo, cbs, salt>>
Next == /\ ~done
        /\ \E r \in {RE(1..10)} : IF B > 1 /\ utxo # {} /\ ~Full /\ r <= Busy THEN Spend
                                  ELSE IF B < NBlk THEN Coinbase ELSE Finish
Spec == Init /\ [][Next]_vars
=============================================================================
