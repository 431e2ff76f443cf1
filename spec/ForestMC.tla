------------------------------- MODULE ForestMC -------------------------------
(* Growing a forest in every possible way: one tree per prefix that occurs       *)
(* (ByteTreeMC has single trees), the nodes of all trees numbered together.  The  *)
(* finished forest is what ForestOf says, and is found right by lookups; a spoilt *)
(* one that ForestOf accepts still consists of trees that Tells accepts.         *)
EXTENDS ByteTree
CONSTANTS A, L, P, R, Most
VARIABLES hs, root, t, todo
vars == <<hs, root, t, todo>>
Hash == [1..L -> A]
RECURSIVE Num(_, _)
Num(h, k) == IF k = 0 THEN 0 ELSE Num(h, k - 1) * 256 + h[k]
Pre(h) == Num(h, P)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Init == /\ \E S \in SUBSET Hash : Cardinality(S) <= Most /\ hs = {[h |-> x, pi |-> 1 + Num(x, L)] : x \in S}
        /\ LET ps == Sorted({Pre(x.h) : x \in hs}) IN
           /\ root = [p \in Rng(ps) |-> CHOOSE k \in 1..Len(ps) : ps[k] = p]
           /\ t = [k \in 1..Len(ps) |-> [b |-> -2]]
           /\ todo = {[n |-> k, hs |-> {x \in hs : Pre(x.h) = ps[k]}, ex |-> {}] : k \in 1..Len(ps)}
Pick == CHOOSE w \in todo : \A v \in todo : w.n <= v.n
MakeLeaf == /\ todo # {} /\ Cardinality(Pick.hs) = 1
            /\ LET w == Pick x == CHOOSE y \in w.hs : TRUE IN
               /\ t' = [t EXCEPT ![w.n] = [b |-> -1, re |-> Reass(L, w.ex \cup 0..P - 1, R, x.h), pi |-> x.pi]]
               /\ todo' = todo \ {w}
            /\ UNCHANGED <<hs, root>>
Split(b) == /\ todo # {} /\ Cardinality(Pick.hs) > 1
            /\ LET w == Pick
                   vals == Sorted({At(x.h, b) : x \in w.hs})
                   k0 == Len(t)
               IN /\ b \notin w.ex /\ Len(vals) > 1
                  /\ t' = [t EXCEPT ![w.n] = [b |-> b, sv |-> vals, sc |-> [k \in 1..Len(vals) |-> k0 + k]]]
                          \o [k \in 1..Len(vals) |-> [b |-> -2]]
                  /\ todo' = (todo \ {w}) \cup {[n |-> k0 + k, hs |-> {x \in w.hs : At(x.h, b) = vals[k]}, ex |-> w.ex \cup {b}] : k \in 1..Len(vals)}
            /\ UNCHANGED <<hs, root>>
Done == todo = {} /\ UNCHANGED vars
Next == MakeLeaf \/ (\E b \in P..L - 1 : Split(b)) \/ Done
Spec == Init /\ [][Next]_vars
Finished == todo = {}
Right == Finished => ForestOf(t, root, hs, Pre, L, P, R)
\* (a prefix that does not occur has no tree)
Find(h) == IF Pre(h) \notin DOMAIN root THEN 0
           ELSE LET w == Walk(t, root[Pre(h)], h, {}) IN
                IF w.leaf = 0 THEN 0 ELSE IF Agree(L, w.ex \cup 0..P - 1, t[w.leaf].re, h) THEN t[w.leaf].pi ELSE 0
FindsAll == Finished => \A x \in hs : Find(x.h) = x.pi
\* what is found agrees with the hash in the prefix at least: the hash file is asked about no other
NoOther == Finished => \A h \in Hash : LET a == Find(h) IN a # 0 => \E x \in hs : x.pi = a /\ Pre(x.h) = Pre(h)
Spoilt == {<<[t EXCEPT ![n] = t[m], ![m] = t[n]], root>> : n, m \in 1..Len(t)}
          \cup {<<[t EXCEPT ![n].b = b], root>> : n \in 1..Len(t) \ Leaves(t), b \in 0..L}
          \cup {<<[t EXCEPT ![n].pi = 0], root>> : n \in Leaves(t)}
          \cup UNION {{<<[t EXCEPT ![n].sv[1] = v], root>> : v \in A} : n \in 1..Len(t) \ Leaves(t)}
          \cup UNION {{<<[t EXCEPT ![n].sc[2] = m], root>> : m \in 1..Len(t)} : n \in 1..Len(t) \ Leaves(t)}
          \cup {<<t, [root EXCEPT ![p] = n]>> : p \in DOMAIN root, n \in 1..Len(t)}
          \cup {<<t, [p \in DOMAIN root \ {q} |-> root[p]]>> : q \in DOMAIN root}
          \cup {<<Append(t, [b |-> -1, re |-> <<>>, pi |-> 1]), root>>}
Acyclic(s) == LET RECURSIVE Below(_, _)
                  Below(n, k) == IF k = 0 \/ Leaf(s[n]) THEN {n} ELSE {n} \cup UNION {Below(m, k - 1) : m \in Rng(s[n].sc)}
              IN \A n \in 1..Len(s) : Leaf(s[n]) \/ \A m \in Rng(s[n].sc) : n \notin Below(m, Len(s))
Verdict == Finished => \A s \in Spoilt : Acyclic(s[1]) /\ ForestOf(s[1], s[2], hs, Pre, L, P, R) =>
               \A p \in DOMAIN s[2] : Tells(s[1], s[2][p], {x \in hs : Pre(x.h) = p}, {}, L, P, R)
===============================================================================
