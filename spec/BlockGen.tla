------------------------------ MODULE BlockGen -------------------------------
(* Random blocks, for the parsers of the real code: with their binary form,   *)
(* what the hashes are taken of, and the sizes, all by BlockCodec.            *)
EXTENDS BlockCodec, Json, IOUtils
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt
VARIABLES list, done
vars == <<list, done>>
NBlk == atoi(IOEnv.GEN_BLOCKS)
Wide == IOEnv.GEN_WIDE = "1"        \* long scripts and many inputs, outputs, items and transactions
RE(S) == RandomElement(S)
Mixed(d, k, S, T) == IF RE(1..k) = 1 THEN RE(T) ELSE RE(S)

Hash32(d) == Rep(Hex1(RE(0..255)) \o Hex1(RE(0..255)), 15) \o Hex1(RE(0..255)) \o Hex1(RE({0, 1, 128, 255}))
W32(d) == RE({<<0, 0>>, <<0, 1>>, <<0, 65535>>, <<1, 0>>, <<32767, 65535>>, <<32768, 0>>, <<65535, 65534>>, <<65535, 65535>>, <<24414, 1234>>, <<4660, 22136>>})
\* up to the supply of coins: 0x775f05a074000
Sat(d) == RE({<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, 546>>, <<0, 0, 0, 65535>>, <<0, 0, 1, 0>>, <<0, 1, 10757, 61952>>, <<0, 0, 65535, 65535>>, <<0, 1, 0, 0>>,
              <<7, 30191, 23072, 16384>>, <<7, 30191, 23072, 16383>>, <<7, 30000, RE(0..65535), RE(0..65535)>>, <<0, RE(0..65535), RE(0..65535), RE(0..65535)>>, <<4, 0, 0, 1>>,
              <<0, 0, RE(0..65535), RE(0..65535)>>})
\* what only the binary form can carry
Sat64(d) == RE({<<65535, 65535, 65535, 65535>>, <<32767, 65535, 65535, 65535>>, <<32768, 0, 0, 0>>, <<256, 0, 0, 1>>, <<255, 65535, 65535, 65535>>, <<32, 0, 0, 1>>})
SLen(d) == IF Wide THEN Mixed(d, 3, {0, 1, 25, 34, 75, 76, 107, 251, 252, 253, 254, 255, 256, 257, 520}, {65535, 65536, 65537, 10000, 70000})
           ELSE Mixed(d, 6, {0, 1, 2, 22, 23, 25, 34, 35, 67, 71, 107, 139}, {252, 253, 254, 255, 256, 600})
Scr(d) == <<Hex1(RE(0..255)), SLen(d)>>
Short(d) == <<Hex1(RE(0..255)), RE({0, 1, 2, 22, 25, 34})>>
Many(d) == IF Wide THEN Mixed(d, 4, {1, 1, 2, 3}, {127, 128, 250, 251, 252, 253, 254, 300, 520}) ELSE Mixed(d, 8, {1}, {2, 3, 251, 252, 253, 254})
WitItems(d) == LET n == Mixed(d, 8, {0, 1, 2, 3}, IF Wide THEN {252, 253, 254, 256} ELSE {4, 5}) IN [k \in 1..n |-> IF n > 5 THEN Short(k) ELSE Scr(k)]
NewIn(d) == LET n == Many(d)
                z == [src |-> Hash32(d), v |-> W32(d), sig |-> IF n = 1 THEN Scr(d) ELSE Short(d), seq |-> W32(d), wit |-> <<>>, n |-> n]
            IN  z
Null32 == Rep("00", 32)
CbIn(d) == [src |-> Null32, v |-> <<65535, 65535>>, sig |-> <<Hex1(RE(0..255)), RE({2, 4, 7, 77, 100})>>, seq |-> W32(d), wit |-> <<>>, n |-> 1]
NewOut(d, big) == LET n == Many(d) IN [val |-> IF big /\ RE(1..4) = 1 THEN Sat64(d) ELSE Sat(d), scr |-> IF n = 1 THEN Scr(d) ELSE Short(d), n |-> n]
\* segwit form exactly when there is a witness
Witness(d, t) == IF RE(1..2) = 1 THEN t
                 ELSE LET u == [t EXCEPT !.ins = [k \in DOMAIN @ |-> [@[k] EXCEPT !.wit = IF t.ins[k].n = 1 THEN WitItems(k) ELSE [j \in 1..RE(0..2) |-> Short(j)]]]]
                      IN  [u EXCEPT !.sw = \E k \in DOMAIN u.ins : u.ins[k].wit # <<>>]
NewTx(d, cb, big) ==
  LET nin == IF cb THEN 1 ELSE RE({1, 1, 1, 2, 2, 3, 5})
      nout == RE({1, 1, 2, 2, 3, 6})
      t == [ver |-> W32(d), sw |-> FALSE, ins |-> [k \in 1..nin |-> IF cb THEN CbIn(k) ELSE NewIn(k)],
            outs |-> [k \in 1..nout |-> NewOut(k, big)], lock |-> W32(d), n |-> 1]
  IN  Witness(d, t)
\* equal transactions in a row do not occur in real blocks, but the count of transactions has its own boundaries
TinyTx(d) == [ver |-> <<0, 1>>, sw |-> FALSE, ins |-> << [src |-> Hash32(d), v |-> <<0, 0>>, sig |-> <<"00", 0>>, seq |-> <<0, 0>>, wit |-> <<>>, n |-> 1] >>,
              outs |-> << [val |-> Sat(d), scr |-> <<"51", 1>>, n |-> 1] >>, lock |-> W32(d), n |-> RE({249, 250, 251, 252, 253, 254, 600})]
Exps == {22, 23, 24, 25, 26, 27, 28, 29, 30, 32}
Bits(d) == LET e == RE(Exps) IN <<e * 256 + (IF e < 23 THEN RE(64..127) ELSE RE(1..127)), RE(0..65535)>>
NewBlock(d) ==
  LET nt == RE({0, 0, 1, 1, 2, 3, 5})
      big == RE(1..3) = 1
      tiny == Wide /\ RE(1..3) = 1
      txs == <<NewTx(d, TRUE, big)>> \o [k \in 1..nt |-> NewTx(k, FALSE, big)] \o (IF tiny THEN <<TinyTx(d)>> ELSE <<>>)
  IN  [ver |-> W32(d), prev |-> Hash32(d), merkle |-> Hash32(d), time |-> W32(d), bits |-> Bits(d), nonce |-> W32(d), txs |-> txs, big |-> big]
Pack(b) == [b |-> b, bin |-> Bin(b), head |-> Header(b), pres |-> [k \in DOMAIN b.txs |-> Stripped(b.txs[k])],
            raw |-> [k \in DOMAIN b.txs |-> Tx(b.txs[k])],
            size |-> BSize(b), stripped |-> BStripped(b), weight |-> BWeight(b),
            txs |-> [k \in DOMAIN b.txs |-> [size |-> TxSize(b.txs[k]), vsize |-> TxVSize(b.txs[k]), weight |-> TxWeight(b.txs[k])]]]
Init == list = <<>> /\ done = FALSE
Add == /\ Len(list) < NBlk /\ \E b \in {NewBlock(Len(list))} : list' = Append(list, Pack(b))
       /\ UNCHANGED done
Finish == Len(list) = NBlk /\ done' = TRUE /\ PrintT("GEN " \o ToJson(list)) /\ UNCHANGED list
Next == ~done /\ (Add \/ Finish)
Spec == Init /\ [][Next]_vars
=============================================================================
