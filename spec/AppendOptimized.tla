--------------------------- MODULE AppendOptimized ---------------------------
(* Implementation-level model of the append-optimised file: a disk file, a    *)
(* bounded append buffer that exists only while operations are appends, the   *)
(* next append offset and the total size.  Checked (TLC, exhaustive for small *)
(* bounds) to refine RandomAccessFile: the logical content disk \o buffer     *)
(* behaves as a plain file whatever the interleaving of operations, and after *)
(* Sync/Close nothing is left in the buffer.                                  *)
EXTENDS Integers, Sequences, TLC

CONSTANTS BufCap,    \* capacity of the append buffer, in blocks
          MaxLen,    \* bound on file length
          Vals       \* block values

VARIABLES disk, buf, buffering, nextOff, total, lastOp, synced
vars == <<disk, buf, buffering, nextOff, total, lastOp, synced>>

R == INSTANCE RandomAccessFile WITH file <- (disk \o buf)

Init == /\ disk \in UNION {[1..n -> Vals] : n \in 0..1}
        /\ buf = <<>> /\ buffering = FALSE /\ nextOff = 0 /\ total = Len(disk)
        /\ lastOp = "open" /\ synced = disk

\* bufio semantics: when the buffer overflows, everything but the overflowing tail goes to disk
\* (the exact split does not matter to the logical content, so it is left open here).
Spill(d, b) == \E k \in 0..Len(b) : /\ Len(b) - k <= BufCap
                                    /\ disk' = d \o SubSeq(b, 1, k)
                                    /\ buf' = SubSeq(b, k + 1, Len(b))

Grow(d) ==   /\ Spill(disk, buf \o d)
             /\ buffering' = TRUE
             /\ total' = total + Len(d)
             /\ nextOff' = total + Len(d)

WriteAt(off, d) ==
  /\ IF (buffering /\ off = nextOff) \/ (~buffering /\ off = total)
     THEN Grow(d)
     ELSE /\ disk' = R!Overlay(disk \o buf, off, d)       \* flush, then write through
          /\ buf' = <<>> /\ buffering' = FALSE
          /\ total' = R!Max(total, off + Len(d))
          /\ UNCHANGED nextOff
  /\ lastOp' = "write" /\ UNCHANGED synced

Flush == disk' = disk \o buf /\ buf' = <<>> /\ buffering' = FALSE /\ UNCHANGED <<nextOff, total>>
ReadAt == Flush /\ lastOp' = "read" /\ UNCHANGED synced
Sync   == Flush /\ lastOp' = "sync" /\ synced' = disk \o buf

Write == \E off \in 0..MaxLen, n \in 1..2 : \E d \in [1..n -> Vals] :
             off + n <= MaxLen /\ WriteAt(off, d)
Next == \/ Write
        \/ ReadAt
        \/ Sync

Spec == Init /\ [][Next]_vars

\* --- what is checked ---------------------------------------------------------
SizeOk      == total = Len(disk \o buf)
NextOk      == buffering => nextOff = total
IdleEmpty   == ~buffering => buf = <<>>
SyncedOk    == lastOp = "sync" => (buf = <<>> /\ disk = synced)
BufBound    == Len(buf) <= BufCap

\* Refinement of the plain file: every step is a write, a read or a sync of the plain file.
RefWrite == \E off \in 0..MaxLen, n \in 1..2 : \E d \in [1..n -> Vals] :
               (disk \o buf)' = R!Overlay(disk \o buf, off, d)
Refines == [][ \/ (lastOp' = "write" /\ RefWrite)
               \/ (lastOp' \in {"read", "sync"} /\ UNCHANGED (disk \o buf)) ]_vars
=============================================================================
