--------------------------- MODULE NumberedFolders ---------------------------
(* Numbers are strings of decimal digits (no leading zeros) so that values up *)
(* to 10^15 fit.  df = digits per file.                                       *)
EXTENDS Integers, Sequences, TLC
ZerosStr(n) == LET Z[k \in 0..n] == IF k = 0 THEN "" ELSE Z[k - 1] \o "0" IN Z[n]
Bucket(num, df) == IF Len(num) <= df THEN "0" ELSE SubSeq(num, 1, Len(num) - df)
FirstOf(bucket, df) == IF bucket = "0" THEN "0" ELSE bucket \o ZerosStr(df)
\* numeric order of two such strings of digits given as sequences of the same kind
=============================================================================
