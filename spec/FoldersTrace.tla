----------------------------- MODULE FoldersTrace -----------------------------
(* M02: the observed mapping number -> (folders, file, file number) is a      *)
(* function of the bucket, one-to-one on buckets, and the file number is the  *)
(* first number of the bucket.                                                *)
EXTENDS TraceIO
VARIABLES i, seen, inv     \* path -> bucket, bucket -> path
vars == <<i, seen, inv>>
N == INSTANCE NumberedFolders
Init == i = 1 /\ seen = <<>> /\ inv = <<>>
New(e) == e.op = "new" /\ seen' = <<>> /\ inv' = <<>>
Map(e) == /\ e.op = "map"
          /\ LET b == N!Bucket(e.num, e.df)
                 p == e.folders \o "|" \o e.file IN
             /\ e.filenum = N!FirstOf(b, e.df)
             /\ IF p \in DOMAIN seen THEN seen[p] = b /\ UNCHANGED seen
                ELSE seen' = [x \in DOMAIN seen \cup {p} |-> IF x = p THEN b ELSE seen[x]]
             /\ IF b \in DOMAIN inv THEN inv[b] = p /\ UNCHANGED inv
                ELSE inv' = [x \in DOMAIN inv \cup {b} |-> IF x = b THEN p ELSE inv[x]]
Next == \/ i <= Len(Tr) /\ (New(Tr[i]) \/ Map(Tr[i])) /\ i' = i + 1
        \/ i > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pos == [i |-> i]     \* what error traces show (whole states can be huge)
=============================================================================
