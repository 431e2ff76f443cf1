----------------------------- MODULE WordFileMC -----------------------------
(* Exhaustive check of the word file over the append-optimised file: the      *)
(* implementation-level state (disk words, buffered words, count) with any    *)
(* interleaving of writes, flushes and crashes refines WordFile; in           *)
(* particular a crash can only expose states WordFile allows.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, Vals
VARIABLES disk, buf, words, synced, dirty
vars == <<disk, buf, words, synced, dirty>>
W == INSTANCE WordFile
Init == disk = <<>> /\ buf = <<>> /\ W!WInit(<<>>)

Write1(off, v) ==
  /\ IF off = Len(disk \o buf)
     THEN \E k \in 0 .. Len(buf) + 1 :    \* whole words only ever reach the disk
            LET b == Append(buf, v) IN disk' = disk \o SubSeq(b, 1, k) /\ buf' = SubSeq(b, k + 1, Len(b))
     ELSE disk' = W!Put(disk \o buf, off, <<v>>) /\ buf' = <<>>
  /\ W!WWrite(off, <<v>>)
Write == \E off \in 0 .. MaxLen - 1, v \in Vals : off <= Len(words) + 1 /\ Write1(off, v)
Read  == disk' = disk \o buf /\ buf' = <<>> /\ W!WRead
Sync  == disk' = disk \o buf /\ buf' = <<>> /\ W!WSync
\* the crash is WordFile's own action applied to what is really on disk
Crash == W!CrashPossible(disk) /\ buf' = <<>> /\ disk' = disk /\ W!WCrash(disk)
Next == Write \/ Read \/ Sync \/ Crash
Spec == Init /\ [][Next]_vars

LogicalOk   == words = disk \o buf
CrashOk     == W!CrashPossible(disk)      \* a crash in any state is allowed by WordFile
SyncedLives == dirty = <<>> => synced = words
=============================================================================
