------------------------------ MODULE HolderGen ------------------------------
(* Feeds for the block holders: times in any order, links mostly right.       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES feed, wrong, base, done
vars == <<feed, wrong, base, done>>
NBlk == atoi(IOEnv.GEN_BLOCKS)
RE(S) == RandomElement(S)
B == Len(feed)
Name(k) == IF k = 0 THEN "g" ELSE "b" \o ToString(k)
Lo(d) == RE({0, 1, 2, 3, 600, 601, 1200, 32767, 32768, 65534, 65535, RE(0..65535), RE(0..65535)})
Time(d) == CASE base = "near" -> <<24414, RE(0..40)>> [] base = "any" -> <<RE({0, 1, 24414, 32767, 32768, 65535}), Lo(d)>>
             [] base = "up" -> <<24414 + (B \div 50), 600 * (B % 50) + RE(0..1500)>> [] base = "down" -> <<65535 - B, Lo(d)>> [] OTHER -> <<32768, 5>>
Flip(n) == n \o "~" \o ToString(RE(0..31))
Prev(d) == IF B = 0 THEN RE({"zero", "zero", Name(7)}) ELSE Name(B - 1)
Wrong(d) == IF B = 0 THEN "zero" ELSE RE({Flip(Name(B - 1)), "zero", Name(B), Name(B + 1), IF B > 1 THEN Name(B - 2) ELSE "x", "g~31"})
Exps == {23, 24, 25, 26, 27, 28, 29, 32}
Bits(d) == RE({<<29, 0, 255, 255>>, <<27, 4, 4, 203>>, <<23, 3, 26, 29>>, <<RE(Exps), RE(1..127), RE(0..255), RE(0..255)>>, <<32, 127, 255, 255>>, <<29, 0, RE(1..255), 0>>})
Outs(n) == [k \in 1..n |-> <<RE({"0", "1", "5000000000", "2100000000000000", "72057594037927936"}), RE(0..20)>>]
Tx(b, t) == [id |-> "t" \o ToString(b) \o "." \o ToString(t), ins |-> [k \in 1..(IF t = 1 THEN 1 ELSE RE({1, 1, 2, 3})) |-> <<RE({"t0.1", "x" \o ToString(k), Name(b)}), RE({0, 1, 7, 65536})>>],
             outs |-> Outs(RE({1, 1, 2, 3})), sizes |-> <<RE(60..100000), RE(60..100000), RE(240..400000)>>]
NTx(d) == RE({1, 1, 2, 3, 5})
Feed == \E w \in {RE(1..(4 * NBlk)) = 1}, n \in {NTx(B)} :
          /\ ~wrong /\ B < NBlk
          /\ feed' = Append(feed, [hash |-> IF B = 0 THEN (IF w THEN RE({"x", "g~0", "g~1", "g~2", "g~3", "zero"}) ELSE "g") ELSE Name(B), prev |-> IF w THEN Wrong(B) ELSE Prev(B),
                                   time |-> Time(B), bits |-> Bits(B), sizes |-> <<RE(200..4000000), RE(200..1000000), RE(800..4000000)>>, txs |-> [t \in 1..n |-> Tx(B, t)]])
          /\ wrong' = w /\ UNCHANGED <<base, done>>
Finish == (wrong \/ B = NBlk) /\ done' = TRUE /\ PrintT("GEN " \o ToJson(feed)) /\ UNCHANGED <<feed, wrong, base>>
Init == feed = <<>> /\ wrong = FALSE /\ base \in {"near", "any", "up", "down", "same"} /\ done = FALSE
Next == ~done /\ (Feed \/ Finish)
Spec == Init /\ [][Next]_vars
=============================================================================
