---------------------------- MODULE BlockCodecMC -----------------------------
(* Exhaustive check, on all blocks of a small shape: reading the bytes one    *)
(* after another with bounds gives the block back, consumes everything, gives *)
(* the right sizes, and refuses every proper prefix; and a parser that keeps  *)
(* its inputs, outputs and scripts in storage that it uses again for the next *)
(* block never shows anything of an earlier block.                            *)
EXTENDS BlockCodec, FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt
CONSTANTS MaxTxs, MaxIns, MaxOuts, Lens, MaxParses
VARIABLES target, last, parses
vars == <<target, last, parses>>

Z == "0000000000000000000000000000000000000000000000000000000000000000"
Piece(n) == <<"51", n>>
Ins  == {[src |-> Z, v |-> <<0, k>>, sig |-> Piece(n), seq |-> <<65535, 65535>>, wit |-> w, n |-> 1] :
          k \in {1}, n \in {0, 1}, w \in {<<>>, <<Piece(0)>>, <<Piece(1), Piece(0)>>}}
OutsS == {[val |-> <<0, 0, 1, 2>>, scr |-> Piece(n), n |-> 1] : n \in Lens}
SeqsUpTo(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
HasWit(t) == \E k \in DOMAIN t.ins : t.ins[k].wit # <<>>
TxsS == {t \in {[ver |-> <<0, 1>>, sw |-> s, ins |-> i, outs |-> o, lock |-> <<0, 7>>, n |-> 1] :
                  s \in BOOLEAN, i \in SeqsUpTo(Ins, 1, MaxIns), o \in SeqsUpTo(OutsS, 0, MaxOuts)} : t.sw = HasWit(t)}
Blocks == {[ver |-> <<0, 1>>, prev |-> Z, merkle |-> Z, time |-> <<1, 2>>, bits |-> <<7424, 65535>>, nonce |-> <<0, 9>>, txs |-> x] :
             x \in SeqsUpTo(TxsS, 1, MaxTxs)}

\* ---- bytes ----
Val(c) == (CHOOSE k \in 1..16 : Digit[k] = c) - 1
Bytes(b) == LET s == Flat(b) IN [k \in 1..(Len(s) \div 2) |-> 16 * Val(SubSeq(s, 2 * k - 1, 2 * k - 1)) + Val(SubSeq(s, 2 * k, 2 * k))]

\* ---- reading: r = [ok, at, ...]; the bytes are s ----
Bad == [ok |-> FALSE, at |-> 0]
Skip(s, r, n) == IF ~r.ok \/ r.at + n > Len(s) THEN Bad ELSE [ok |-> TRUE, at |-> r.at + n]
Num(s, at, n) == FoldLeft(LAMBDA acc, k : acc * 256 + s[at + n - k + 1], 0, [k \in 1..n |-> k])
CompactAt(s, r) == LET one == Skip(s, r, 1)
                       w == IF ~one.ok THEN 0 ELSE LET f == s[r.at + 1] IN IF f < 253 THEN 0 ELSE IF f = 253 THEN 2 ELSE 4
                       two == Skip(s, one, w)
                   IN  IF ~two.ok THEN [ok |-> FALSE, at |-> 0, n |-> 0]
                       ELSE [ok |-> TRUE, at |-> two.at, n |-> IF w = 0 THEN s[r.at + 1] ELSE Num(s, one.at, w)]
\* storage: st = [txis, txos, scripts]
RECURSIVE ReadIns(_, _, _, _), ReadOuts(_, _, _, _), ReadItems(_, _, _), ReadWits(_, _, _), ReadTxs(_, _, _, _)
ReadIns(s, r, n, st) ==
  IF ~r.ok \/ n = 0 THEN [r |-> r, st |-> st] ELSE
  LET a == Skip(s, r, 36)
      c == CompactAt(s, a)
      e == Skip(s, Skip(s, c, c.n), 4)
  IN  IF ~e.ok THEN [r |-> Bad, st |-> st]
      ELSE ReadIns(s, e, n - 1, [st EXCEPT !.txis = Append(@, [v |-> Num(s, r.at + 32, 2)])])
ReadOuts(s, r, n, st) ==
  IF ~r.ok \/ n = 0 THEN [r |-> r, st |-> st] ELSE
  LET a == Skip(s, r, 8)
      c == CompactAt(s, a)
      e == Skip(s, c, c.n)
  IN  IF ~e.ok THEN [r |-> Bad, st |-> st]
      ELSE ReadOuts(s, e, n - 1, [st EXCEPT !.txos = Append(@, [val |-> Num(s, r.at, 3), at |-> Len(st.scripts), len |-> c.n]),
                                            !.scripts = @ \o SubSeq(s, c.at + 1, e.at)])
ReadItems(s, r, n) == IF ~r.ok \/ n = 0 THEN r ELSE LET c == CompactAt(s, r) IN ReadItems(s, Skip(s, c, c.n), n - 1)
ReadWits(s, r, n)  == IF ~r.ok \/ n = 0 THEN r ELSE LET c == CompactAt(s, r) IN ReadWits(s, ReadItems(s, [ok |-> c.ok, at |-> c.at], c.n), n - 1)
ReadTxs(s, r, n, acc) ==          \* acc = [txs, st]
  IF ~r.ok \/ n = 0 THEN [r |-> r, acc |-> acc] ELSE
  LET v == Skip(s, r, 4)
      peek == Skip(s, v, 2)
      sw == peek.ok /\ s[v.at + 1] = 0 /\ s[v.at + 2] # 0
      b == IF sw THEN peek ELSE v
      ni == CompactAt(s, b)
      i == ReadIns(s, [ok |-> ni.ok, at |-> ni.at], ni.n, acc.st)
      no == CompactAt(s, i.r)
      o == ReadOuts(s, [ok |-> no.ok, at |-> no.at], no.n, i.st)
      w == IF sw THEN ReadWits(s, o.r, ni.n) ELSE o.r
      e == Skip(s, w, 4)
      stripped == (o.r.at - r.at) + 4 - (IF sw THEN 2 ELSE 0)
  IN  IF ~e.ok THEN [r |-> Bad, acc |-> [acc EXCEPT !.st = o.st]]
      ELSE ReadTxs(s, e, n - 1,
             [txs |-> Append(acc.txs, [is |-> Len(acc.st.txis), ic |-> ni.n, os |-> Len(i.st.txos), oc |-> no.n, sw |-> sw,
                                       size |-> e.at - r.at, stripped |-> stripped, idof |-> <<SubSeq(s, r.at + 1, r.at + 4), SubSeq(s, b.at + 1, o.r.at), SubSeq(s, w.at + 1, e.at)>>]),
              st |-> o.st])
Empty == [txis |-> <<>>, txos |-> <<>>, scripts |-> <<>>]
Read(s, st) == LET h == Skip(s, [ok |-> TRUE, at |-> 0], 80)
                   c == CompactAt(s, h)
                   x == ReadTxs(s, [ok |-> c.ok, at |-> c.at], c.n, [txs |-> <<>>, st |-> Empty])   \* the storage is emptied, not replaced
               IN  [ok |-> x.r.ok, used |-> x.r.at, txs |-> x.acc.txs, st |-> x.acc.st]

\* ---- what a block's reader is shown ----
Shown(t) == [k \in DOMAIN t.txs |->
              LET x == t.txs[k]
              IN  [ins |-> [j \in 1..x.ic |-> t.st.txis[x.is + j].v],
                   outs |-> [j \in 1..x.oc |-> LET o == t.st.txos[x.os + j] IN <<o.val, SubSeq(t.st.scripts, o.at + 1, o.at + o.len)>>],
                   sw |-> x.sw, size |-> x.size, stripped |-> x.stripped, idof |-> x.idof[1] \o x.idof[2] \o x.idof[3]]]
Meant(b) == [k \in DOMAIN b.txs |->
              LET x == b.txs[k]
              IN  [ins |-> [j \in DOMAIN x.ins |-> x.ins[j].v[2]],
                   outs |-> [j \in DOMAIN x.outs |-> <<65536 * x.outs[j].val[3] + x.outs[j].val[4], Bytes(<<x.outs[j].scr>>)>>],
                   sw |-> x.sw, size |-> TxSize(x), stripped |-> TxStripped(x), idof |-> Bytes(Stripped(x))]]

Nothing == [ok |-> FALSE, used |-> 0, txs |-> <<>>, st |-> Empty]
NoBlock == [txs |-> <<>>]
Init == target = Nothing /\ last = NoBlock /\ parses = 0
Parse == \E b \in Blocks :
           /\ target' = Read(Bytes(Bin(b)), target.st) /\ last' = b
Cut   == \E b \in Blocks : \E n \in {1, 2} :          \* fails part of the way, and leaves things behind
           /\ target' = Read(SubSeq(Bytes(Bin(b)), 1, BSize(b) - n), target.st) /\ last' = NoBlock
Next == parses < MaxParses /\ parses' = parses + 1 /\ (Parse \/ Cut)
Spec == Init /\ [][Next]_vars

Roundtrip == last # NoBlock => /\ target.ok /\ target.used = BSize(last) /\ Shown(target) = Meant(last)
                               /\ BWeight(last) = 3 * BStripped(last) + BSize(last)
                               /\ BStripped(last) = BSize(last) - FoldLeft(LAMBDA a, t : a + (TxSize(t) - TxStripped(t)), 0, last.txs)
Truncated == last = NoBlock => ~target.ok
NoPrefix == parses = 1 /\ last # NoBlock => LET s == Bytes(Bin(last)) IN \A n \in 0..(Len(s) - 1) : ~Read(SubSeq(s, 1, n), Empty).ok
=============================================================================
