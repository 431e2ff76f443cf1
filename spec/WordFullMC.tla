------------------------------ MODULE WordFullMC ------------------------------
(* A word file over the append-optimised file on a disk that may refuse any   *)
(* write at any point (F06).  Buffered appends that could not be written make *)
(* every later operation fail until the file is closed; a write through that  *)
(* fails has had no effect or part of it, and must not count in the length at *)
(* which appending goes on.  What a sync has stored stays, and a sync or      *)
(* close succeeds only where all that was acknowledged is on disk.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, Vals
VARIABLES disk, buf, total,       \* words on disk and in the buffer; the length the file takes itself to have
          stuck,                  \* the buffer has met a disk that was full
          failed,                 \* some operation has failed since the file was opened
          words, synced, dirty    \* WordFile: what was asked for, whether it was refused or not
vars == <<disk, buf, total, stuck, failed, words, synced, dirty>>
W == INSTANCE WordFile
Init == disk = <<>> /\ buf = <<>> /\ total = 0 /\ stuck = FALSE /\ failed = FALSE /\ W!WInit(<<>>)

\* what reaches the disk of n words of a buffer
Some(b, k) == SubSeq(b, 1, k)
Fails == failed' = TRUE
\* appending goes on after what the file takes itself to hold
Append1(v) == /\ ~stuck /\ W!WWrite(total, <<v>>) /\ total' = total + 1 /\ UNCHANGED <<stuck, failed>>
              /\ \E k \in {0, Len(buf) + 1} : LET b == Append(buf, v) IN disk' = disk \o Some(b, k) /\ buf' = SubSeq(b, k + 1, Len(b))
AppendFull(v) == /\ ~stuck /\ buf # <<>> /\ Fails /\ W!WWrite(total, <<v>>) /\ stuck' = TRUE
                 /\ \E k \in 0 .. Len(buf) - 1 : disk' = disk \o Some(buf, k) /\ UNCHANGED <<buf, total>>
Through(off, v) == /\ ~stuck /\ off # total /\ W!WWrite(off, <<v>>) /\ UNCHANGED <<stuck, failed>>
                   /\ disk' = W!Put(disk \o buf, off, <<v>>) /\ buf' = <<>> /\ total' = W!Max(total, off + 1)
ThroughFull(off, v) == /\ ~stuck /\ off # total /\ W!WWrite(off, <<v>>) /\ Fails
                       /\ \/ \E k \in 0 .. Len(buf) - 1 : disk' = disk \o Some(buf, k) /\ stuck' = TRUE /\ UNCHANGED <<buf, total>>
                          \/ disk' = disk \o buf /\ buf' = <<>> /\ UNCHANGED <<total, stuck>>   \* refused, nothing of it done
Stuck(off, v) == stuck /\ W!WWrite(off, <<v>>) /\ Fails /\ UNCHANGED <<disk, buf, total, stuck>>
Write == \E off \in 0 .. MaxLen - 1, v \in Vals :
           /\ off <= Len(words) + 1
           /\ (IF off = total THEN Append1(v) \/ AppendFull(v) ELSE Through(off, v) \/ ThroughFull(off, v)) \/ Stuck(off, v)
Sync == ~stuck /\ disk' = disk \o buf /\ buf' = <<>> /\ UNCHANGED <<total, stuck, failed>>
        /\ IF failed THEN W!WRead ELSE W!WSync
SyncFull == /\ Fails /\ W!WRead /\ UNCHANGED <<buf, total>>
            /\ IF stuck THEN UNCHANGED <<disk, stuck>>
               ELSE buf # <<>> /\ stuck' = TRUE /\ \E k \in 0 .. Len(buf) - 1 : disk' = disk \o Some(buf, k)
Crash == buf' = <<>> /\ disk' = disk /\ total' = Len(disk) /\ stuck' = FALSE /\ failed' = FALSE /\ W!WCrash(disk)
Next == Write \/ Sync \/ SyncFull \/ Crash
Spec == Init /\ [][Next]_vars

LogicalOk == ~failed => words = disk \o buf
CrashOk   == W!CrashPossible(disk)
TotalOk   == ~stuck => total = Len(disk \o buf)
=============================================================================
