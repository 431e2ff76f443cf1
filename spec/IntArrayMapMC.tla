---------------------------- MODULE IntArrayMapMC ----------------------------
(* Implementation-level model of the map store: values live in bucket files   *)
(* in folders; at most one "latest" and one "older" bucket are held in        *)
(* memory; switching saves the bucket being replaced; a flush saves both.     *)
(* Checked to refine IntArrayMap, including what a crash can expose.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, KeysPerBucket, MaxOps
VARIABLES disk,             \* bucket -> (key -> seq); saved files
          folders,          \* folders that exist
          latest, older,    \* -1 or bucket number
          latestNo,         \* number used to decide what is later
          lmem, omem,       \* contents of the buckets in memory
          ops, arr, synced
vars == <<disk, folders, latest, older, latestNo, lmem, omem, ops, arr, synced>>
M == INSTANCE IntArrayMap
Bucket(k) == k \div KeysPerBucket
Buckets == {Bucket(k) : k \in Keys}
Folder(b) == IF b < 2 THEN 0 ELSE b      \* small numbers share the root folder, which always exists
Empty == <<>>
Load(b) == IF b \in DOMAIN disk THEN disk[b] ELSE Empty
Save(d, b, m) == IF b = -1 THEN d ELSE [x \in DOMAIN d \cup {b} |-> IF x = b THEN m ELSE d[x]]
CanSave(f, b) == b = -1 \/ Folder(b) \in f

Init == /\ disk = <<>> /\ folders = {0} /\ latest = -1 /\ older = -1 /\ latestNo = 0
        /\ lmem = Empty /\ omem = Empty /\ ops = 0 /\ M!MInit

Append1(k) ==
  LET b == Bucket(k)  v == <<ops>> IN
  /\ ops < MaxOps /\ ops' = ops + 1
  /\ M!MAppend(k, v)
  /\ IF latest = b
     THEN lmem' = M!Add(lmem, k, v) /\ UNCHANGED <<disk, folders, latest, older, latestNo, omem>>
     ELSE IF b > latestNo
     THEN /\ CanSave(folders, latest)
          /\ disk' = Save(disk, latest, lmem)
          /\ folders' = folders \cup {Folder(b)}
          /\ latest' = b /\ latestNo' = b /\ lmem' = M!Add(Load(b), k, v)
          /\ UNCHANGED <<older, omem>>
     ELSE IF older = b
     THEN omem' = M!Add(omem, k, v) /\ UNCHANGED <<disk, folders, latest, older, latestNo, lmem>>
     ELSE /\ CanSave(folders, older)
          /\ disk' = Save(disk, older, omem)
          /\ folders' = folders \cup {Folder(b)}     \* the folder of the bucket being loaded must exist too
          /\ older' = b /\ omem' = M!Add(Load(b), k, v)
          /\ UNCHANGED <<latest, latestNo, lmem>>
AppendK == \E k \in Keys : Append1(k)
Flush == /\ CanSave(folders, older) /\ CanSave(folders, latest)
         /\ disk' = Save(Save(disk, older, omem), latest, lmem)
         /\ older' = -1 /\ latest' = -1 /\ latestNo' = 0
         /\ M!MSync /\ UNCHANGED <<folders, lmem, omem, ops>>
DiskArr == [k \in {x \in Keys : Bucket(x) \in DOMAIN disk /\ x \in DOMAIN disk[Bucket(x)]} |-> disk[Bucket(k)][k]]
Crash == /\ latest # -1
         /\ latest' = -1 /\ older' = -1 /\ latestNo' = 0
         /\ M!MCrash(DiskArr) /\ UNCHANGED <<disk, folders, lmem, omem, ops>>
Next == AppendK \/ Flush \/ Crash
Spec == Init /\ [][Next]_vars

Mem(k) == IF Bucket(k) = latest THEN M!Get(lmem, k)
          ELSE IF Bucket(k) = older THEN M!Get(omem, k) ELSE M!Get(Load(Bucket(k)), k)
LogicalOk == \A k \in Keys : Mem(k) = M!Get(arr, k)
CrashOk   == M!CrashPossible(DiskArr)
NeverStuck == CanSave(folders, older) /\ CanSave(folders, latest)
Distinct  == latest # -1 => latest # older
=============================================================================
