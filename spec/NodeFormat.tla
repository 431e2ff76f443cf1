----------------------------- MODULE NodeFormat -----------------------------
(* The bytes a tree is stored in.  A level is an index part and a node part.    *)
(* Index: 2 bytes number of groups, then per group W bytes number of nodes and  *)
(* 4 bytes format; nodes: group after group, all nodes of a group equally long. *)
(* Nodes are numbered from 1 within their level, in the order they are stored.  *)
(* The low 16 bits of a format are the length of a node; a format that is just  *)
(*   R + H          is a leaf: R reassurance bytes, H bytes number              *)
(*   2 + 256 W      is a full node: pad, byte index, 256 node numbers           *)
(* otherwise bits 16..23, if not 0, are the capacity c of a medium node:        *)
(*   pad, byte index, 32 bytes bit map, c node numbers                          *)
(* and else bits 24..31 are the capacity c of a tiny node:                      *)
(*   byte index, c times (byte value, node number), 0 where not used.           *)
(* All numbers are little-endian.  Node number 0 means nothing there.           *)
EXTENDS Integers, Sequences, TLC
RECURSIVE LE(_, _, _)
\* the n-byte number at offset o (from 0) of s
LE(s, o, n) == IF n = 0 THEN 0 ELSE s[o + 1] + 256 * LE(s, o + 1, n - 1)
RECURSIVE Bytes(_, _)
Bytes(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o Bytes(v \div 256, n - 1)
\* f = [W, H, R, fullpad, medpad]
NG(ix) == LE(ix, 0, 2)
GroupN(f, ix, g) == LE(ix, 2 + (g - 1) * (f.W + 4), f.W)
GroupSpec(f, ix, g) == LE(ix, 2 + (g - 1) * (f.W + 4) + f.W, 4)
Size(spec) == spec % 65536
MedCap(spec) == (spec \div 65536) % 256
TinyCap(spec) == spec \div 16777216
Kind(f, spec) == IF spec = f.R + f.H THEN "leaf" ELSE IF spec = 2 + 256 * f.W THEN "full"
                 ELSE IF MedCap(spec) > 0 /\ TinyCap(spec) = 0 /\ Size(spec) = 34 + f.W * MedCap(spec) THEN "medium"
                 ELSE IF MedCap(spec) = 0 /\ TinyCap(spec) > 0 /\ Size(spec) = 1 + (1 + f.W) * TinyCap(spec) THEN "tiny"
                 ELSE "unknown"
RECURSIVE NodesTo(_, _, _)
NodesTo(f, ix, g) == IF g = 0 THEN 0 ELSE NodesTo(f, ix, g - 1) + GroupN(f, ix, g)
RECURSIVE BytesTo(_, _, _)
BytesTo(f, ix, g) == IF g = 0 THEN 0 ELSE BytesTo(f, ix, g - 1) + GroupN(f, ix, g) * Size(GroupSpec(f, ix, g))
NodesOf(f, ix) == NodesTo(f, ix, NG(ix))
\* the parts of a level fit together
LevelOk(f, lv) == /\ Len(lv.ix) = 2 + NG(lv.ix) * (f.W + 4)
                  /\ \A g \in 1..NG(lv.ix) : Kind(f, GroupSpec(f, lv.ix, g)) # "unknown"
                  /\ Len(lv.nb) = BytesTo(f, lv.ix, NG(lv.ix))
Bit(x, k) == (x \div (2^k)) % 2 = 1
\* references to nodes: level l (from 0), number id
Ref(l, id) == l * 1000000 + id
RECURSIVE Onto(_, _, _, _)
\* the ascending list of the v in v..255 for which Used(v)
Onto(v, Used(_), acc, top) == IF v > top THEN acc ELSE Onto(v + 1, Used, IF Used(v) THEN Append(acc, v) ELSE acc, top)
\* a node of level l as ByteTree has it: s = its bytes
Decode(f, l, spec, s) ==
  LET k == Kind(f, spec) IN
  IF k = "leaf" THEN [b |-> -1, ok |-> TRUE, re |-> SubSeq(s, 1, f.R), pi |-> LE(s, f.R, f.H)]
  ELSE IF k = "full"
  THEN LET Used(v) == LE(s, 2 + v * f.W, f.W) # 0
           sv == Onto(0, Used, <<>>, 255)
       IN [b |-> s[2], ok |-> s[1] = f.fullpad, sv |-> sv, sc |-> [j \in 1..Len(sv) |-> Ref(l + 1, LE(s, 2 + sv[j] * f.W, f.W))]]
  ELSE IF k = "medium"
  THEN LET Used(v) == Bit(s[3 + v \div 8], v % 8)
           sv == Onto(0, Used, <<>>, 255)
       IN [b |-> s[2], ok |-> s[1] = f.medpad /\ Len(sv) <= MedCap(spec), sv |-> sv,
           sc |-> [j \in 1..Len(sv) |-> IF j <= MedCap(spec) THEN Ref(l + 1, LE(s, 34 + (j - 1) * f.W, f.W)) ELSE -1]]
  ELSE LET Used(c) == LE(s, 2 + c * (1 + f.W), f.W) # 0
           cs == Onto(0, Used, <<>>, TinyCap(spec) - 1)
       IN [b |-> s[1], ok |-> TRUE, sv |-> [j \in 1..Len(cs) |-> s[2 + cs[j] * (1 + f.W)]],
           sc |-> [j \in 1..Len(cs) |-> Ref(l + 1, LE(s, 2 + cs[j] * (1 + f.W), f.W))]]
\* the nodes of a level, in order
LevelNodes(f, lv, l) ==
  LET n == NG(lv.ix)
      cnt == TLCEval([g \in 0..n |-> NodesTo(f, lv.ix, g)])
      off == TLCEval([g \in 0..n |-> BytesTo(f, lv.ix, g)])
      sp == TLCEval([g \in 1..n |-> GroupSpec(f, lv.ix, g)])
      NodeAt(id, g) == LET o == TLCEval(off[g - 1] + (id - 1 - cnt[g - 1]) * Size(sp[g]))
                           s == TLCEval(SubSeq(lv.nb, o + 1, o + Size(sp[g])))
                       IN TLCEval(Decode(f, l, sp[g], s))
  IN TLCEval([id \in 1..cnt[n] |-> NodeAt(id, TLCEval(CHOOSE g \in 1..n : cnt[g - 1] < id /\ id <= cnt[g]))])
\* all nodes, by reference; levels = sequence of [ix, nb], the root's first
Nodes(f, levels) == LET ns == TLCEval([l \in 1..Len(levels) |-> LevelNodes(f, levels[l], l - 1)])
                        refs == UNION {{Ref(l - 1, id) : id \in 1..Len(ns[l])} : l \in 1..Len(levels)}
                    IN TLCEval([r \in refs |-> ns[r \div 1000000 + 1][r % 1000000]])
=============================================================================
