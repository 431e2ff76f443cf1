------------------------------ MODULE WordTrace ------------------------------
(* Conformance of word files and hash lists to WordFile.                      *)
(* Once a history has set limits (a full disk, no more descriptors: F06) any  *)
(* operation may fail, and after one has, nothing is known but what a crash   *)
(* would leave; as long as none has, everything holds as ever.                *)
EXTENDS TraceIO
VARIABLES i, words, synced, dirty, kind, lim, failed
vars == <<i, words, synced, dirty, kind, lim, failed>>
W == INSTANCE WordFile

Zeros(n) == [k \in 1..n |-> 0]
RunVals(seed, n) == [k \in 1..n |-> ((seed + k) % 200) + 1]
Init == i = 1 /\ W!WInit(<<>>) /\ kind = "none" /\ lim = FALSE /\ failed = FALSE
Keep == UNCHANGED <<kind, lim, failed>>

\* a new file, possibly pre-filled with zeros; it did not exist before and does after
New(e) == /\ e.op = "new" /\ e.err = "" /\ kind' = e.kind /\ lim' = FALSE /\ failed' = FALSE
          /\ (Has(e, "before") => e.before = FALSE /\ e.after = TRUE)
          /\ words' = Zeros(e.zeros) /\ synced' = Zeros(e.zeros) /\ dirty' = <<>>
Ok == ~failed
Write(e) == Ok /\ e.op = "write" /\ e.err = "" /\ W!WWrite(e.off, <<e.v>>) /\ Keep
App(e)   == Ok /\ e.op = "append" /\ e.err = "" /\ e.idx = Len(words) /\ W!WWrite(Len(words), <<e.v>>) /\ Keep
Run(e)   == Ok /\ e.op = "run" /\ e.err = "" /\ W!WWrite(e.off, RunVals(e.seed, e.n)) /\ Keep
Read(e)  == /\ Ok /\ e.op = "read" /\ W!WRead /\ Keep
            /\ IF e.off < Len(words) THEN e.err = "" /\ e.v = words[e.off + 1] ELSE e.err # ""
Dump(e)  == Ok /\ e.op = "dump" /\ e.vals = words /\ W!WRead /\ Keep
Count(e) == Ok /\ e.op = "count" /\ e.err = "" /\ e.n = Len(words) /\ W!WRead /\ Keep
Whole(e) == Ok /\ e.op = "whole" /\ e.err = "" /\ e.vals = words /\ W!WRead /\ Keep
\* after a sync or a close an independent opener of a copy of the files sees everything
Sync(e)  == Ok /\ e.op = "sync" /\ e.err = "" /\ e.disk = words /\ W!WSync /\ Keep
Close(e) == Ok /\ e.op = "close" /\ e.err = "" /\ e.disk = words /\ W!WSync /\ Keep
Reopen(e) == /\ Ok /\ e.op = "reopen" /\ e.err = "" /\ words' = synced /\ UNCHANGED <<synced, dirty, lim, failed>> /\ kind' = e.kind
             /\ (Has(e, "disk") => e.disk = words)
\* the writer vanishes; an independent opener finds e.disk
Crash(e) == e.op = "crash" /\ e.err = "" /\ Ok /\ W!WCrash(e.disk) /\ kind' = e.kind /\ lim' = FALSE /\ failed' = FALSE

\* ---- a full disk
Limit(e) == e.op = "limit" /\ lim' = TRUE /\ W!WRead /\ UNCHANGED <<kind, failed>>
\* the history ends where nothing is open any more
Ends == IF i = Len(Tr) THEN TRUE ELSE Tr[i + 1].op = "new"
Fails(e) == failed \/ e.err # ""
\* what fails may leave a part of a word behind
FCrashPossible(c) == /\ Len(c) >= Len(synced) /\ Len(c) <= Len(words)
                     /\ \A p \in 0 .. Len(c) - 1 : \/ p >= Len(synced) /\ c[p + 1] = -1
                                                   \/ W!At(c, p) \in {W!At(synced, p)} \cup (IF p \in DOMAIN dirty THEN dirty[p] ELSE {})
FWCrash(c) == (FCrashPossible(c) = TRUE) /\ words' = c /\ synced' = c /\ dirty' = <<>>
\* a write that failed may have happened in part; so may those after it
FWrite(e) == /\ lim /\ e.op \in {"write", "append", "run"} /\ Fails(e) /\ failed' = TRUE /\ UNCHANGED <<kind, lim>>
             /\ CASE e.op = "run" -> W!WWrite(e.off, RunVals(e.seed, e.n))
               [] e.op = "write" -> W!WWrite(e.off, <<e.v>>)
               [] e.op = "append" /\ e.err = "" -> W!WWrite(e.idx, <<e.v>>)
               [] OTHER -> W!WWrite(Len(synced), [k \in 1 .. Len(words) - Len(synced) + 1 |-> e.v])
FRead(e) == /\ lim /\ UNCHANGED <<kind, lim>> /\ failed' = TRUE /\ W!WRead
            /\ \/ e.op = "read" /\ Fails(e) /\ (failed \/ e.off < Len(words)) = TRUE
               \/ e.op \in {"count", "whole"} /\ Fails(e)
               \/ e.op = "dump" /\ (failed \/ e.vals # words) = TRUE /\ (failed \/ \E k \in DOMAIN e.vals : e.vals[k] \in {-2, -9}) = TRUE
\* even then nothing synced is lost, and nothing invented, as far as anyone can see who opens the file
FSync(e) == lim /\ e.op \in {"sync", "close"} /\ Fails(e) /\ (e.seen => FCrashPossible(e.disk)) /\ W!WRead /\ failed' = TRUE /\ UNCHANGED <<kind, lim>>
FReopen(e) == /\ lim /\ e.op = "reopen" /\ Fails(e) /\ UNCHANGED lim
              /\ IF e.err = "" THEN FWCrash(e.disk) /\ failed' = FALSE /\ (Has(e, "torn") => Ends) /\ kind' = e.kind
                 ELSE Ends /\ W!WRead /\ UNCHANGED <<kind, failed>>
\* a file with half a word at its end does not open
FCrash(e) == /\ e.op = "crash" /\ lim
             /\ IF e.err = "" THEN /\ failed /\ FWCrash(e.disk) /\ kind' = e.kind /\ lim' = FALSE /\ failed' = FALSE /\ (Has(e, "torn") => Ends)
                ELSE failed /\ Ends /\ W!WRead /\ UNCHANGED <<kind, lim, failed>>
FStep(e) == FCrash(e) \/ Limit(e) \/ FWrite(e) \/ FRead(e) \/ FSync(e) \/ FReopen(e)

Step(e) == \/ New(e) \/ Write(e) \/ App(e) \/ Run(e) \/ Read(e) \/ Dump(e) \/ Count(e) \/ Whole(e)
           \/ Sync(e) \/ Close(e) \/ Reopen(e) \/ Crash(e) \/ FStep(e)
Next == \/ i <= Len(Tr) /\ Step(Tr[i]) /\ i' = i + 1
        \/ i > Len(Tr) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pos == [i |-> i]     \* what error traces show (whole states can be huge)
=============================================================================
