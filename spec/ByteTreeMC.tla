------------------------------ MODULE ByteTreeMC ------------------------------
(* Growing a tree in every possible way: for every set of at most Most hashes   *)
(* over a small alphabet, every choice of the byte examined at each node.  The  *)
(* finished tree must find every hash put in, find another hash only when all   *)
(* the bytes it looks at agree, have one leaf per hash, and be what TreeOf      *)
(* says (the predicate that recorded trees are held against).                   *)
EXTENDS ByteTree
CONSTANTS A, L, P, R, Most
VARIABLES hs, t, todo
vars == <<hs, t, todo>>
Hash == [1..L -> A]
ZeroPrefix == {h \in Hash : \A k \in 1..P : h[k] = 0}
PiOf(h) == 10 + LET RECURSIVE V(_) V(k) == IF k = 0 THEN 0 ELSE V(k - 1) * 10 + h[k] IN V(L)
Init == /\ \E S \in SUBSET ZeroPrefix : Cardinality(S) <= Most /\ hs = {[h |-> x, pi |-> PiOf(x)] : x \in S}
        /\ t = IF hs = {} THEN <<>> ELSE <<[b |-> -2]>>
        /\ todo = IF hs = {} THEN {} ELSE {[n |-> 1, hs |-> hs, ex |-> {}]}
\* the unfinished node to do next (their order does not matter: the lowest)
Pick == CHOOSE w \in todo : \A v \in todo : w.n <= v.n
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
MakeLeaf == /\ todo # {} /\ Cardinality(Pick.hs) = 1
            /\ LET w == Pick x == CHOOSE y \in w.hs : TRUE IN
               /\ t' = [t EXCEPT ![w.n] = [b |-> -1, re |-> Reass(L, w.ex \cup 0..P - 1, R, x.h), pi |-> x.pi, h |-> x.h]]
               /\ todo' = todo \ {w}
            /\ UNCHANGED hs
Split(b) == /\ todo # {} /\ Cardinality(Pick.hs) > 1
            /\ LET w == Pick
                   vals == Sorted({At(x.h, b) : x \in w.hs})
                   k0 == Len(t)
               IN /\ b \notin w.ex /\ Len(vals) > 1
                  /\ t' = [t EXCEPT ![w.n] = [b |-> b, sv |-> vals, sc |-> [k \in 1..Len(vals) |-> k0 + k]]]
                          \o [k \in 1..Len(vals) |-> [b |-> -2]]
                  /\ todo' = (todo \ {w}) \cup {[n |-> k0 + k, hs |-> {x \in w.hs : At(x.h, b) = vals[k]}, ex |-> w.ex \cup {b}] : k \in 1..Len(vals)}
            /\ UNCHANGED hs
Done == todo = {} /\ UNCHANGED vars
Next == MakeLeaf \/ (\E b \in P..L - 1 : Split(b)) \/ Done
Spec == Init /\ [][Next]_vars
Finished == todo = {}
\* distinct hashes always leave a byte that tells two of them apart: no state is stuck (deadlock check), and
FindsAll == Finished => \A x \in hs : Lookup(t, L, P, x.h, -1) = x.pi /\ LookupFull(t, x.h, 0) = x.pi
OnlyLookalikes == Finished => \A h \in ZeroPrefix :
    LET a == Lookup(t, L, P, h, -1) IN
    /\ (a # -1 => \E x \in hs : x.pi = a /\ LET w == Walk(t, 1, h, {}) IN
                     /\ \A b \in w.ex : At(h, b) = At(x.h, b)
                     /\ \A b \in Rng(FirstFree(L, w.ex \cup 0..P - 1, R, 0)) : At(h, b) = At(x.h, b))
    /\ (R >= L - P /\ a # -1 => \E x \in hs : x.h = h)
    /\ (h \notin {x.h : x \in hs} => LookupFull(t, h, 0) = 0)
LeafPerHash == Finished => Cardinality(Leaves(t)) = Cardinality(hs) /\ Len(t) <= 2 * Cardinality(hs)
\* spoilt trees: two nodes exchanged, a byte index or value or child or index changed
Spoilt == {[t EXCEPT ![n] = t[m], ![m] = t[n]] : n, m \in 1..Len(t)}
          \cup {[t EXCEPT ![n].b = b] : n \in 1..Len(t) \ Leaves(t), b \in 0..L}
          \cup {[t EXCEPT ![n].pi = 0] : n \in Leaves(t)}
          \cup {[t EXCEPT ![n].re = Pad(t[n].re, R + 1)] : n \in Leaves(t)}
          \cup {[t EXCEPT ![n].re = [k \in 1..Len(t[n].re) |-> 2]] : n \in Leaves(t)}
          \cup UNION {{[t EXCEPT ![n].sv[1] = v] : v \in A} : n \in 1..Len(t) \ Leaves(t)}
          \cup UNION {{[t EXCEPT ![n].sc[2] = m] : m \in 2..Len(t)} : n \in 1..Len(t) \ Leaves(t)}
          \cup UNION {{[t EXCEPT ![n].sv = Tail(@), ![n].sc = Tail(@)]} : n \in 1..Len(t) \ Leaves(t)}
\* no node is its own ancestor (Tells, unlike Tells2, would follow such a tree for ever)
RECURSIVE Below(_, _, _)
Below(s, n, k) == IF k = 0 \/ Leaf(s[n]) THEN {n} ELSE {n} \cup UNION {Below(s, m, k - 1) : m \in Rng(s[n].sc)}
Acyclic(s) == \A n \in 1..Len(s) : Leaf(s[n]) \/ \A m \in Rng(s[n].sc) : n \notin Below(s, m, Len(s))
SameVerdict == Finished => /\ TreeOf(t, hs, L, P, R) = TreeOf2(t, hs, L, P, R)
                           /\ hs # {} => \A s \in Spoilt : Acyclic(s) =>
                                  /\ TreeOf2(s, hs, L, P, R) => TreeOf(s, hs, L, P, R)
                                  /\ TreeOf(s, hs, L, P, R) /\ Below(s, 1, Len(s)) = 1..Len(s) => TreeOf2(s, hs, L, P, R)
Right == Finished => TreeOf(t, hs, L, P, R)
===============================================================================
