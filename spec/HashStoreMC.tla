----------------------------- MODULE HashStoreMC -----------------------------
(* The classic hash store's algorithm: a lookup entry per partial hash that   *)
(* is empty, an index, or a link to a list of chunks of CPC indices each.     *)
(* Exhaustive: refines HashIndex for every history of appends of up to MaxLen *)
(* (repeatable) hashes over the given universe and partial-hash function.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS U, P, CPC, MaxLen
VARIABLES hs, lookup, chunks
vars == <<hs, lookup, chunks>>
H == INSTANCE HashIndex
Hashes == 1..U
Partial(h) == h % P
Zero == [ent |-> <<>>, nxt |-> 0]
Init == hs = <<>> /\ lookup = [p \in 0..P - 1 |-> [k |-> "none", v |-> 0]] /\ chunks = <<>>
RECURSIVE Last(_)
Last(c) == IF chunks[c].nxt = 0 THEN c ELSE Last(chunks[c].nxt)
New(v) == Len(chunks) + 1
AppendH(h) ==
  LET idx == Len(hs)
      p == Partial(h)
      l == lookup[p]
  IN /\ Len(hs) < MaxLen /\ H!HAppend(h)
     /\ CASE l.k = "none" -> lookup' = [lookup EXCEPT ![p] = [k |-> "idx", v |-> idx]] /\ UNCHANGED chunks
          [] l.k = "idx"  -> /\ chunks' = Append(chunks, [ent |-> <<l.v, idx>>, nxt |-> 0])
                             /\ lookup' = [lookup EXCEPT ![p] = [k |-> "link", v |-> New(0)]]
          [] OTHER -> LET c == Last(l.v) IN
               IF Len(chunks[c].ent) < CPC THEN chunks' = [chunks EXCEPT ![c].ent = Append(@, idx)] /\ UNCHANGED lookup
               ELSE chunks' = Append([chunks EXCEPT ![c].nxt = New(0)], [ent |-> <<idx>>, nxt |-> 0]) /\ UNCHANGED lookup
RECURSIVE Walk(_, _, _)
Walk(c, j, h) == IF c = 0 THEN -1
                 ELSE IF j > Len(chunks[c].ent) THEN (IF Len(chunks[c].ent) < CPC THEN -1 ELSE Walk(chunks[c].nxt, 1, h))
                 ELSE IF hs[chunks[c].ent[j] + 1] = h THEN chunks[c].ent[j] ELSE Walk(c, j + 1, h)
Lookup(h) == LET l == lookup[Partial(h)] IN
  CASE l.k = "none" -> -1
    [] l.k = "idx" -> IF hs[l.v + 1] = h THEN l.v ELSE -1
    [] OTHER -> Walk(l.v, 1, h)
Next == \E h \in Hashes : AppendH(h)
Spec == Init /\ [][Next]_vars
Correct == \A h \in Hashes : H!IsIndexOf(h, Lookup(h))
=============================================================================
