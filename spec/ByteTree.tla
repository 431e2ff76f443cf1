------------------------------- MODULE ByteTree -------------------------------
(* A tree that tells hashes (byte sequences of one length L) apart.  A slots    *)
(* node examines one byte not examined above it and has one child per value     *)
(* found there; a leaf stands for the only hash left and keeps its index and    *)
(* its first bytes not examined ("reassurance" bytes, at most R).  The first P  *)
(* bytes are a prefix shared by all hashes of the tree and are never examined.  *)
(* WHICH byte a node examines is the implementation's choice, as long as it     *)
(* tells at least two of the hashes apart.                                      *)
(* A tree is a sequence of nodes, the root first:                               *)
(*   slots [b |-> byte index, from 0, sv |-> values in ascending order,         *)
(*          sc |-> children]       leaf  [b |-> -1, re |-> bytes, pi |-> index] *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Leaf(n) == n.b = -1
\* the byte at index b (from 0) of hash h
At(h, b) == h[b + 1]
\* the first R indices of 0..L-1 outside ex
RECURSIVE FirstFree(_, _, _, _)
FirstFree(L, ex, R, b) == IF R = 0 \/ b >= L THEN <<>>
                          ELSE IF b \in ex THEN FirstFree(L, ex, R, b + 1) ELSE <<b>> \o FirstFree(L, ex, R - 1, b + 1)
Reass(L, ex, R, h) == LET f == FirstFree(L, ex, R, 0) IN [k \in 1..Len(f) |-> At(h, f[k])]
\* looking hash h up: the leaf it leads to, with the bytes examined on the way; 0 if it leads nowhere
RECURSIVE Walk(_, _, _, _)
Walk(t, n, h, ex) == IF Leaf(t[n]) THEN [leaf |-> n, ex |-> ex]
                     ELSE LET ks == {k \in 1..Len(t[n].sv) : t[n].sv[k] = At(h, t[n].b)}
                          IN IF ks = {} THEN [leaf |-> 0, ex |-> ex]
                             ELSE Walk(t, TLCEval(t[n].sc[CHOOSE k \in ks : TRUE]), h, TLCEval(ex \cup {t[n].b}))
Agree(L, ex, re, h) == LET f == FirstFree(L, ex, Len(re), 0) IN \A k \in 1..Len(f) : At(h, f[k]) = re[k]
\* the answer of a tree that compares reassurance bytes only (no = the answer for "not found")
Lookup(t, L, P, h, no) == IF t = <<>> THEN no
                          ELSE LET w == Walk(t, 1, h, {}) IN
                               IF w.leaf = 0 THEN no
                               ELSE IF Agree(L, w.ex \cup 0..P - 1, t[w.leaf].re, h) THEN t[w.leaf].pi ELSE no
\* the answer of a tree that compares whole hashes
LookupFull(t, h, no) == IF t = <<>> THEN no
                        ELSE LET w == Walk(t, 1, h, {}) IN IF w.leaf # 0 /\ t[w.leaf].h = h THEN t[w.leaf].pi ELSE no
\* stored leaves have room for R reassurance bytes: what is missing is zeros
Pad(re, R) == [k \in 1..R |-> IF k <= Len(re) THEN re[k] ELSE 0]
Rng(s) == {s[k] : k \in 1..Len(s)}
\* the tree below node n tells apart exactly the hashes hs = set of [h, pi], the bytes ex having been examined
RECURSIVE Tells(_, _, _, _, _, _, _)
Tells(t, n, hs, ex, L, P, R) ==
  IF Leaf(t[n])
  THEN /\ Cardinality(hs) = 1
       /\ \A x \in hs : t[n].pi = x.pi /\ Pad(t[n].re, R) = Pad(Reass(L, ex \cup 0..P - 1, R, x.h), R)
  ELSE /\ t[n].b \in P..L - 1 /\ t[n].b \notin ex
       /\ Len(t[n].sv) >= 2 /\ Len(t[n].sc) = Len(t[n].sv)
       /\ \A k \in 1..Len(t[n].sv) - 1 : t[n].sv[k] < t[n].sv[k + 1]
       /\ Rng(t[n].sv) = {At(x.h, t[n].b) : x \in hs}
       /\ \A k \in 1..Len(t[n].sv) : Tells(t, t[n].sc[k], {x \in hs : At(x.h, t[n].b) = t[n].sv[k]}, ex \cup {t[n].b}, L, P, R)
\* the whole tree
TreeOf(t, hs, L, P, R) == IF hs = {} THEN t = <<>> ELSE t # <<>> /\ Tells(t, 1, hs, {}, L, P, R)
Leaves(t) == {n \in 1..Len(t) : Leaf(t[n])}
\* the same, told from how every hash is looked up (quicker to evaluate; ByteTreeMC shows that it is the same)
WalkOk(t, w, x, L, P, R) == /\ w.leaf # 0 /\ t[w.leaf].pi = x.pi
                            /\ Pad(t[w.leaf].re, R) = Pad(Reass(L, w.ex \cup 0..P - 1, R, x.h), R)
NodeOk(n, L, P) == Leaf(n) \/ /\ n.b \in P..L - 1 /\ Len(n.sv) >= 2 /\ Len(n.sc) = Len(n.sv)
                              /\ \A k \in 1..Len(n.sv) - 1 : n.sv[k] < n.sv[k + 1]
\* (t may be any function from references to nodes; 1 is the root)
Tells2(t, hs, L, P, R) ==
  LET dom == DOMAIN t
      refs == dom \ {1}
      leaves == TLCEval({n \in dom : Leaf(t[n])})
      kids == TLCEval(UNION {{<<n, k>> : k \in 1..Len(t[n].sc)} : n \in dom \ leaves})
      ws == TLCEval([x \in hs |-> Walk(t, 1, x.h, {})])
  IN /\ 1 \in dom
     /\ \A n \in dom : NodeOk(t[n], L, P)
     \* one reference to every node but the root
     /\ {t[c[1]].sc[c[2]] : c \in kids} = refs /\ Cardinality(kids) = Cardinality(refs)
     /\ \A x \in hs : WalkOk(t, ws[x], x, L, P, R)
     /\ Cardinality(hs) = Cardinality(leaves) /\ {ws[x].leaf : x \in hs} = leaves
TreeOf2(t, hs, L, P, R) == IF hs = {} THEN DOMAIN t = {} ELSE Tells2(t, hs, L, P, R)
\* several trees sharing their nodes' numbering, one per prefix: root = function from the prefixes that occur to
\* references, Pre(h) = the prefix of h
ForestOf(t, root, hs, Pre(_), L, P, R) ==
  LET dom == DOMAIN t
      leaves == TLCEval({n \in dom : Leaf(t[n])})
      kids == TLCEval(UNION {{<<n, k>> : k \in 1..Len(t[n].sc)} : n \in dom \ leaves})
      roots == TLCEval({root[p] : p \in DOMAIN root})
      under == TLCEval({t[c[1]].sc[c[2]] : c \in kids})
      ws == TLCEval([x \in hs |-> Walk(t, root[Pre(x.h)], x.h, {})])
  IN /\ DOMAIN root = {Pre(x.h) : x \in hs}
     \* one reference to every node
     /\ roots \subseteq dom /\ under \subseteq dom /\ roots \cup under = dom
     /\ Cardinality(dom) = Cardinality(DOMAIN root) + Cardinality(kids)
     /\ \A n \in dom : NodeOk(t[n], L, P)
     /\ \A x \in hs : WalkOk(t, ws[x], x, L, P, R)
     /\ Cardinality(hs) = Cardinality(leaves) /\ {ws[x].leaf : x \in hs} = leaves
===============================================================================
