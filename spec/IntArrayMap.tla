----------------------------- MODULE IntArrayMap -----------------------------
(* A map from keys to growing arrays (M01), and what of it must survive a     *)
(* crash between operations (F05).                                            *)
EXTENDS Integers, Sequences
VARIABLES arr,     \* key -> sequence of values appended so far (keys never appended are absent)
          synced   \* the same at the last flush, sync (or read, which flushes)
Get(a, k) == IF k \in DOMAIN a THEN a[k] ELSE <<>>
Add(a, k, vs) == [x \in DOMAIN a \cup {k} |-> IF x = k THEN Get(a, k) \o vs ELSE a[x]]
MInit == arr = <<>> /\ synced = <<>>
MAppend(k, vs) == arr' = Add(arr, k, vs) /\ UNCHANGED synced
MSync == synced' = arr /\ UNCHANGED arr
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
\* a fresh opener after a crash: nothing synced lost, nothing invented, order kept
CrashPossible(d) == \A k \in DOMAIN arr : /\ IsPrefix(Get(synced, k), Get(d, k))
                                          /\ IsPrefix(Get(d, k), arr[k])
MCrash(d) == CrashPossible(d) /\ arr' = d /\ synced' = d
=============================================================================
