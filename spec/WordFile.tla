------------------------------ MODULE WordFile ------------------------------
(* A word file: a zero-filled, growing array of fixed-width words (F01), its  *)
(* memory-shadowed and read-only variants (F03), and what of it is guaranteed *)
(* after a crash between two operations (F05).  A word is abstracted to a     *)
(* small integer (0 is the zero word); the harness maps it injectively to a   *)
(* value of the word width with all bytes in use.                             *)
EXTENDS Integers, Sequences

VARIABLES words,    \* the array as every reader must see it
          synced,   \* the array at the last completed sync or close
          dirty     \* position -> set of values it took since then

Max(a, b) == IF a > b THEN a ELSE b
At(s, p) == IF p < Len(s) THEN s[p + 1] ELSE 0

Put(s, off, d) == [k \in 1 .. Max(Len(s), off + Len(d)) |->
                     IF k > off /\ k <= off + Len(d) THEN d[k - off] ELSE At(s, k - 1)]

WInit(c) == words = c /\ synced = c /\ dirty = <<>>

\* write the values d at consecutive positions from off on
WWrite(off, d) ==
  /\ words' = Put(words, off, d)
  /\ dirty' = [p \in DOMAIN dirty \cup off .. off + Len(d) - 1 |->
                 (IF p \in DOMAIN dirty THEN dirty[p] ELSE {}) \cup
                 (IF p >= off /\ p < off + Len(d) THEN {d[p - off + 1]} ELSE {})]
  /\ UNCHANGED synced
WRead == UNCHANGED <<words, synced, dirty>>
WSync == synced' = words /\ dirty' = <<>> /\ UNCHANGED words

\* what a fresh opener may find after a crash: nothing synced is lost, nothing is invented
CrashPossible(c) ==
  /\ Len(c) >= Len(synced) /\ Len(c) <= Len(words)
  /\ \A p \in 0 .. Len(c) - 1 :
        At(c, p) \in {At(synced, p)} \cup (IF p \in DOMAIN dirty THEN dirty[p] ELSE {})
WCrash(c) == CrashPossible(c) /\ words' = c /\ synced' = c /\ dirty' = <<>>
=============================================================================
