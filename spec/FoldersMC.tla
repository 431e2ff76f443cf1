------------------------------ MODULE FoldersMC ------------------------------
(* The naming scheme itself (big digits, placeholders), checked exhaustively  *)
(* for one-to-one-ness on buckets over all numbers below Max and several      *)
(* digit settings.  Numbers are naturals here.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Max
VARIABLES df, dd, n
vars == <<df, dd, n>>
Pow[k \in 0..6] == IF k = 0 THEN 1 ELSE 10 * Pow[k - 1]
\* big digits, least significant first; the first has df digits (dd if df = 0), the others dd
RECURSIVE Rest(_, _)
Rest(x, d) == IF x = 0 THEN <<>> ELSE <<x % Pow[d]>> \o Rest(x \div Pow[d], d)
Big(x, f, d) == LET w == IF f = 0 THEN d ELSE f IN <<x % Pow[w]>> \o Rest(x \div Pow[w], d)
\* file name: every big digit except the placeholder in the file position
File(x, f, d) == LET b == Big(x, f, d) IN [k \in 1..Len(b) |-> IF k = 1 /\ f > 0 THEN -1 ELSE b[k]]
\* folder at a level: big digits above the level, placeholders (-1) at and below it
Folder(x, f, d, l) == LET b == Big(x, f, d) IN [k \in 1..Len(b) |-> IF k - 1 <= l \/ k = 1 THEN -1 ELSE b[k]]
Path(x, f, d) == LET b == Big(x, f, d) IN
   <<[l \in 1 .. Len(b) - 1 |-> Folder(x, f, d, Len(b) - l)], File(x, f, d)>>
BucketOf(x, f) == x \div Pow[f]
Init == df \in 0..3 /\ dd \in 1..2 /\ n = 0
Next == n < Max /\ n' = n + 1 /\ UNCHANGED <<df, dd>>
Spec == Init /\ [][Next]_vars
\* a new bucket gets a path none of the earlier buckets has; the same bucket keeps its path
OneToOne == \A m \in 0 .. n - 1 :
               (Path(m, df, dd) = Path(n, df, dd)) <=> (BucketOf(m, df) = BucketOf(n, df))
=============================================================================
