------------------------------- MODULE SegList -------------------------------
(* A list of hash identities kept as segments <<first id, length>> of           *)
(* consecutive ids, so that lists of hundreds of thousands stay small.          *)
EXTENDS Integers, Sequences
RECURSIVE CountTo(_, _)
CountTo(s, k) == IF k = 0 THEN 0 ELSE CountTo(s, k - 1) + s[k][2]
Count(s) == CountTo(s, Len(s))
Add(s, id, n) == IF s # <<>> /\ s[Len(s)][1] + s[Len(s)][2] = id
                 THEN [s EXCEPT ![Len(s)] = <<@[1], @[2] + n>>] ELSE Append(s, <<id, n>>)
\* the first position of an id, or -1
RECURSIVE From(_, _, _, _)
From(s, id, k, base) == IF k > Len(s) THEN -1
                        ELSE IF id >= s[k][1] /\ id < s[k][1] + s[k][2] THEN base + id - s[k][1]
                        ELSE From(s, id, k + 1, base + s[k][2])
IndexOf(s, id) == From(s, id, 1, 0)
RECURSIVE At(_, _, _)
At(s, p, k) == IF p < s[k][2] THEN s[k][1] + p ELSE At(s, p - s[k][2], k + 1)
HashAt(s, p) == At(s, p, 1)
=============================================================================
