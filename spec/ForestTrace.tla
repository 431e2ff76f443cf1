----------------------------- MODULE ForestTrace -----------------------------
(* Conformance of baking: the tiers below the top one, each a sequence of        *)
(* forests [first |-> index of its first hash, hs |-> hashes].  Baking a tier    *)
(* makes one forest of all its hashes at the end of the next tier, and empties   *)
(* it; a tier that has its quota of forests is baked at once.  A forest has one  *)
(* tree (ByteTree) for each prefix (P bytes) that occurs in it; the trees' nodes *)
(* are stored level by level (NodeFormat), and a jump table has each tree's root.*)
(* A hash that is repeated is found at its first index in the tier.              *)
EXTENDS TraceIO, FiniteSets
VARIABLES i, cf, ts, tot, lim
vars == <<i, cf, ts, tot, lim>>
B == INSTANCE ByteTree
N == INSTANCE NodeFormat
L == 32
Empty == <<<<>>, <<>>, <<>>, <<>>>>
Init == i = 1 /\ cf = [n |-> 0] /\ ts = Empty /\ tot = 0 /\ lim = FALSE
New(e) == e.op = "new" /\ cf' = e /\ ts' = Empty /\ tot' = 0 /\ lim' = FALSE
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
All(fs) == Cat([k \in 1..Len(fs) |-> fs[k].hs])
RECURSIVE Put(_, _, _)
\* forest f goes to tier d (from 0)
Put(s, d, f) == LET n == Append(s[d + 1], f) IN
                IF Len(n) = cf.quota[d + 1] THEN Put([s EXCEPT ![d + 1] = <<>>], d + 1, [first |-> n[1].first, hs |-> TLCEval(All(n))])
                ELSE [s EXCEPT ![d + 1] = n]
Bake(e) == e.op = "bake" /\ e.err = "" /\ ts' = TLCEval(Put(ts, cf.dest, [first |-> tot, hs |-> e.hs])) /\ tot' = tot + Len(e.hs) /\ lim' = FALSE /\ UNCHANGED cf
\* the disk is full, or there are no descriptors left, while the next thing is done: it may fail, and says so; nothing is said of what comes then
Limit(e) == e.op = "limit" /\ lim' = TRUE /\ UNCHANGED <<cf, ts, tot>>
Failed(e) == e.op \in {"bake", "reopen"} /\ e.err # "" /\ lim /\ (i = Len(Tr) \/ Tr[i + 1].op = "new") = TRUE /\ UNCHANGED <<cf, ts, tot, lim>>
Reopen(e) == e.op = "reopen" /\ e.err = "" /\ lim' = FALSE /\ UNCHANGED <<cf, ts, tot>>
\* ---- what is on disk.  All lengths from the info file, which has per forest 8 bytes first index, 1 byte number of levels,
\* and per level 8 bytes length of the index part, 8 bytes length of the node part
RECURSIVE InfoAt(_, _, _)
\* the records of n forests from offset o on: sequence of [rec |-> first 8 bytes, lens |-> sequence of <<index, nodes>>], then the end
InfoAt(s, o, n) == IF n = 0 THEN <<[end |-> o]>>
                   ELSE LET m == s[o + 9] IN
                        <<[rec |-> SubSeq(s, o + 1, o + 8), lens |-> [l \in 1..m |-> <<N!LE(s, o + 9 + 16 * (l - 1), 8), N!LE(s, o + 17 + 16 * (l - 1), 8)>>]]>>
                        \o InfoAt(s, o + 9 + 16 * m, n - 1)
FirstBytes(k) == N!Bytes(cf.lo + k, 4) \o N!Bytes(cf.hi, 4)
Pow(b, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN b ELSE IF n = 2 THEN b * b ELSE b * b * b
RECURSIVE Before(_, _, _)
\* the bytes that forests 1..k have in the file of level l (from 1)
Before(info, l, k) == IF k = 0 THEN 0 ELSE Before(info, l, k - 1) + (IF l <= Len(info[k].lens) THEN info[k].lens[l][1] + info[k].lens[l][2] ELSE 0)
LevelsOf(e, info, k) == [l \in 1..Len(info[k].lens) |->
     LET o == TLCEval(Before(info, l, k - 1)) IN
     [ix |-> SubSeq(e.levels[l], o + 1, o + info[k].lens[l][1]),
      nb |-> SubSeq(e.levels[l], o + info[k].lens[l][1] + 1, o + info[k].lens[l][1] + info[k].lens[l][2])]]
RECURSIVE Pre(_, _)
Pre(h, n) == IF n = 0 THEN 0 ELSE Pre(h, n - 1) * 256 + h[n]
\* the set of distinct hashes, each with its first position
Firsts(hs) == {x \in {[h |-> hs[k], pi |-> k] : k \in 1..Len(hs)} : \A j \in 1..x.pi - 1 : hs[j] # x.h}
\* jz: the bytes of the jump tables that are not zero, as a function
JByte(jz, o) == IF o \in DOMAIN jz THEN jz[o] ELSE 0
RECURSIVE JLE(_, _, _)
JLE(jz, o, n) == IF n = 0 THEN 0 ELSE JByte(jz, o) + 256 * JLE(jz, o + 1, n - 1)
ForestOk(e, f, P, W, H, R, info, jz, k) ==
  LET fmt == [W |-> W, H |-> H, R |-> R, fullpad |-> 170, medpad |-> 85]
      span == Pow(256, P)
  IN \E lv \in {TLCEval(LevelsOf(e, info, k))} :
     /\ info[k].rec = FirstBytes(f.first)
     /\ \A l \in 1..Len(lv) : N!LevelOk(fmt, lv[l]) /\ (l <= P => N!NG(lv[l].ix) = 0)
     /\ \E ns \in {N!Nodes(fmt, lv)} : \E hz \in {Firsts(f.hs)} :
        \E ps \in {{(o \div W) - (k - 1) * span : o \in {q \in DOMAIN jz : q \div W \in (k - 1) * span .. k * span - 1}}} :
        \E root \in {[p \in ps |-> N!Ref(P, JLE(jz, ((k - 1) * span + p) * W, W))]} :
        LET PreP(h) == Pre(h, P) IN
           /\ \A r \in DOMAIN ns : ns[r].ok
           /\ B!ForestOf(ns, root, hz, PreP, L, P, R)
Disk(e) == /\ e.op = "disk"
           /\ LET fs == ts[e.tier + 1]
                  P == cf.prefix[e.tier + 1]  W == cf.W[e.tier + 1]  H == cf.H[e.tier + 1]  R == cf.R[e.tier + 1]
              IN (IF fs = <<>> THEN ~e.there
                  ELSE /\ e.there
                       /\ e.hashes = All(fs)
                       /\ \E info \in {InfoAt(e.info, 0, Len(fs))} : \E jz \in {[o \in {x[1] : x \in B!Rng(e.jump)} |-> CHOOSE v \in 1..255 : <<o, v>> \in B!Rng(e.jump)]} :
                            /\ info[Len(fs) + 1].end = Len(e.info)
                            /\ e.jumplen = Len(fs) * Pow(256, P) * W
                            /\ \A k \in 1..Len(fs) : Len(info[k].lens) <= Len(e.levels)
                            /\ \A l \in 1..Len(e.levels) : Len(e.levels[l]) = Before(info, l, Len(fs))
                            /\ \A k \in 1..Len(fs) : ForestOk(e, fs[k], P, W, H, R, info, jz, k)) = TRUE
           /\ UNCHANGED <<cf, ts, tot, lim>>
\* ---- what the tiers answer, from the one baked into downwards; tiers that hold something are among them, in order
\* index of the first of hash h in a tier
At(fs, h) == LET a == All(fs) IN IF \E k \in 1..Len(a) : a[k] = h THEN fs[1].first + (CHOOSE k \in 1..Len(a) : a[k] = h /\ \A j \in 1..k - 1 : a[j] # h) - 1 ELSE -1
ChainOk(e) == /\ \A k \in 1..Len(e.tiers) - 1 : e.tiers[k].tier < e.tiers[k + 1].tier
              /\ {k \in 0..3 : ts[k + 1] # <<>>} \subseteq {e.tiers[k].tier : k \in 1..Len(e.tiers)}
Find(e) == /\ e.op = "find" /\ ChainOk(e)
           /\ (\A k \in 1..Len(e.tiers) : \A q \in 1..Len(e.hs) : e.tiers[k].as[q] = At(ts[e.tiers[k].tier + 1], e.hs[q])) = TRUE
           /\ UNCHANGED <<cf, ts, tot, lim>>
HashAt(fs, a, p) == IF fs # <<>> /\ p >= fs[1].first /\ p < fs[1].first + Len(a) THEN a[p - fs[1].first + 1] ELSE <<>>
Get(e) == /\ e.op = "get" /\ ChainOk(e)
          /\ (\A k \in 1..Len(e.tiers) : \E fs \in {ts[e.tiers[k].tier + 1]} : \E a \in {All(fs)} :
                 /\ Len(e.tiers[k].as) = tot + 4
                 /\ \A q \in 1..tot + 4 : e.tiers[k].as[q] = HashAt(fs, a, q - 3)) = TRUE
          /\ UNCHANGED <<cf, ts, tot, lim>>
Next == \/ /\ i <= Len(Tr) /\ i' = i + 1
           /\ LET e == Tr[i] IN New(e) \/ Bake(e) \/ Limit(e) \/ Failed(e) \/ Reopen(e) \/ Disk(e) \/ Find(e) \/ Get(e)
        \/ i > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pos == [i |-> i]     \* what error traces show (whole states can be huge)
===============================================================================
