------------------------------- MODULE LayoutMC -------------------------------
(* How the nodes of a level are laid out when several trees share it (see        *)
(* NodeFormat for one level's bytes).  The nodes are sorted by their number of   *)
(* children into groups of equally long nodes; the index counts the nodes of     *)
(* each group over ALL trees; a node's number is its place group after group.    *)
(* Trees are written one at a time, the nodes of a tree in any order.  Numbers   *)
(* and places are handed out per group; whoever reads works out the place from   *)
(* the number and the index alone and must find that very node.                  *)
(* PerGroup = FALSE is the layout that appends tree after tree instead: TLC      *)
(* shows (LayoutMCbad.cfg) that it loses nodes as soon as two trees share groups.*)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Trees, Most, Counts, Groups, PerGroup
VARIABLES lv, group, now, left, next, place, cells, ids
vars == <<lv, group, now, left, next, place, cells, ids>>
SeqsTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* the length of the nodes of group g: room for the most children of any count in it, and one byte more
SizeOf(gr, g) == 1 + MaxOf({0} \cup {c \in Counts : gr[c] = g})
\* the index: how many nodes each group has
Index(l, gr, g) == Cardinality({<<t, k>> \in (1..Trees) \X (1..Most) : k <= Len(l[t]) /\ gr[l[t][k]] = g})
RECURSIVE NodesTo(_, _, _)
NodesTo(l, gr, g) == IF g = 0 THEN 0 ELSE NodesTo(l, gr, g - 1) + Index(l, gr, g)
RECURSIVE BytesTo(_, _, _)
BytesTo(l, gr, g) == IF g = 0 THEN 0 ELSE BytesTo(l, gr, g - 1) + Index(l, gr, g) * SizeOf(gr, g)
Init == /\ lv \in [1..Trees -> SeqsTo(Counts, Most)]
        /\ group \in [Counts -> 1..Groups]
        /\ now = 1 /\ left = DOMAIN lv[1]
        /\ next = [g \in 1..Groups |-> NodesTo(lv, group, g - 1) + 1]
        /\ place = [g \in 1..Groups |-> BytesTo(lv, group, g - 1)]
        /\ cells = <<>> /\ ids = <<>>
\* cells: position -> the byte of the node written there;  ids: node -> number
Put(k) == LET g == group[lv[now][k]]
              sz == SizeOf(group, g)
              at == IF PerGroup THEN place[g] ELSE Cardinality(DOMAIN cells)
          IN /\ k \in left /\ left' = left \ {k}
             /\ ids' = ids @@ (<<now, k>> :> next[g])
             /\ next' = [next EXCEPT ![g] = @ + 1]
             /\ place' = [place EXCEPT ![g] = @ + sz]
             /\ cells' = [p \in at..at + sz - 1 |-> <<now, k, p - at>>] @@ cells
             /\ UNCHANGED <<lv, group, now>>
NextTree == left = {} /\ now < Trees /\ now' = now + 1 /\ left' = DOMAIN lv[now + 1] /\ UNCHANGED <<lv, group, next, place, cells, ids>>
Done == left = {} /\ now = Trees /\ UNCHANGED vars
Next == (\E k \in left : Put(k)) \/ NextTree \/ Done
Spec == Init /\ [][Next]_vars
\* reading: the group a number falls in, and the place of its node
GroupOf(id) == CHOOSE g \in 1..Groups : NodesTo(lv, group, g - 1) < id /\ id <= NodesTo(lv, group, g)
At(id) == LET g == GroupOf(id) IN BytesTo(lv, group, g - 1) + (id - 1 - NodesTo(lv, group, g - 1)) * SizeOf(group, g)
Extract == \A n \in DOMAIN ids : LET id == ids[n] IN
              /\ 1 <= id /\ id <= NodesTo(lv, group, Groups) /\ GroupOf(id) = group[lv[n[1]][n[2]]]
              /\ \A b \in 0..SizeOf(group, GroupOf(id)) - 1 : At(id) + b \in DOMAIN cells /\ cells[At(id) + b] = <<n[1], n[2], b>>
Distinct == \A n, m \in DOMAIN ids : ids[n] = ids[m] => n = m
\* when all is written there are no holes and nothing beyond the end
Full == (left = {} /\ now = Trees) => DOMAIN cells = 0..BytesTo(lv, group, Groups) - 1
===============================================================================
