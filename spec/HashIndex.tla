------------------------------ MODULE HashIndex ------------------------------
(* What every hash store is: a list of hashes which can be asked for the hash *)
(* at an index, the first index of a hash, and its length.                    *)
EXTENDS Integers, Sequences
VARIABLES hs
NotFound == -1
FirstAt(h, i) == hs[i + 1] = h /\ \A j \in 1..i : hs[j] # h
Range == {hs[k] : k \in 1..Len(hs)}
IsIndexOf(h, i) == IF i = NotFound THEN h \notin Range ELSE i \in 0..Len(hs) - 1 /\ FirstAt(h, i)
HAppend(h) == hs' = Append(hs, h)
=============================================================================
