------------------------------ MODULE FileTrace ------------------------------
(* Conformance of file objects (append-optimised, memory-held, memory-mapped, *)
(* file-with-size) to RandomAccessFile: every result logged by the driver     *)
(* must be the result the plain file gives.                                   *)
EXTENDS TraceIO
VARIABLES i, file, synced, kind
vars == <<i, file, synced, kind>>
R == INSTANCE RandomAccessFile

Init == i = 1 /\ file = <<>> /\ synced = <<>> /\ kind = "none"

\* a new object over a file with the given content
New(e) == e.op = "new" /\ file' = e.init /\ synced' = e.init /\ kind' = e.kind

\* append-optimised / plain: write anywhere.  memory-held: only inside the file.
Write(e) == /\ e.op = "write"
            /\ IF kind = "mmap" THEN e.err # "" /\ UNCHANGED <<file, synced, kind>>
               ELSE /\ e.err = "" /\ e.n = Len(e.data)
                    /\ R!FWrite(e.off, e.data) /\ UNCHANGED kind
                    /\ (kind = "fixed" => Len(file') = Len(file))

\* the data that is delivered must be right; reading past the end must be flagged
Read(e) == /\ e.op = "read"
           /\ LET exp == R!ReadData(file, e.off, e.n) IN
              IF Len(exp) = e.n
              THEN e.err = "" /\ e.got = e.n /\ e.data = exp
              ELSE /\ e.err # ""
                   /\ (kind \in {"ao", "fws"} => e.got = Len(exp) /\ e.err = "EOF")
                   /\ e.got <= Len(exp)
                   /\ e.data = SubSeq(exp, 1, e.got)
           /\ R!FRead /\ UNCHANGED kind

Size(e)    == e.op = "size" /\ e.n = Len(file) /\ R!FRead /\ UNCHANGED kind
ReadAll(e) == e.op = "readall" /\ e.err = "" /\ e.data = file /\ R!FRead /\ UNCHANGED kind

\* after a sync/close of the append-optimised file the disk holds exactly the plain file;
\* the memory-held copy reaches the disk at close; a mapped file never changes
Sync(e) == /\ e.op = "sync" /\ e.err = ""
           /\ (kind # "fixed" => e.disk = file)
           /\ IF kind = "fixed" THEN R!FRead ELSE R!FSync
           /\ UNCHANGED kind
Close(e) == /\ e.op = "close" /\ e.err = "" /\ e.disk = file /\ R!FSync /\ UNCHANGED kind
Reopen(e) == e.op = "reopen" /\ e.err = "" /\ kind' = e.kind /\ file' = synced /\ UNCHANGED synced

Step(e) == New(e) \/ Write(e) \/ Read(e) \/ Size(e) \/ ReadAll(e) \/ Sync(e) \/ Close(e) \/ Reopen(e)
Next == \/ i <= Len(Tr) /\ Step(Tr[i]) /\ i' = i + 1
        \/ i > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pos == [i |-> i]     \* what error traces show (whole states can be huge)
=============================================================================
