------------------------------- MODULE WordGen -------------------------------
(* Histories of a word file or hash list, for replay on the real code.        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES len, hist, ro, done
vars == <<len, hist, ro, done>>
D == atoi(IOEnv.GEN_DEPTH)
Hash == IOEnv.GEN_KIND = "hash"
Big == IOEnv.GEN_BIG = "1"
Crashes == IOEnv.GEN_CRASH = "1"
Full == "GEN_FULL" \in DOMAIN IOEnv /\ IOEnv.GEN_FULL = "1"
RE(S) == RandomElement(S)
Log(op) == hist' = Append(hist, op)
RW == IF Hash THEN {"hash"} ELSE {"plain", "shadow"}
RO == IF Hash THEN {"hash"} ELSE {"ro", "roshadow", "mmap"}
V(z) == RE(0..200)

Init == /\ ro = FALSE /\ done = FALSE
        /\ \E z \in {0, 0, 0, 1, 3} : \E k \in RW :
              /\ len = IF Hash THEN 0 ELSE z
              /\ hist = <<[op |-> "new", kind |-> k, zeros |-> IF Hash THEN 0 ELSE z]>>
Wr(off) == Log([op |-> "write", off |-> off, v |-> V(Len(hist))]) /\ len' = IF off >= len THEN off + 1 ELSE len
AppendW == ~ro /\ Wr(len)
AppendH == Hash /\ Log([op |-> "append", v |-> V(Len(hist))]) /\ len' = len + 1
Over    == ~ro /\ len > 0 /\ \E o \in {RE(0..len - 1)} : Wr(o)
Last    == ~ro /\ len > 0 /\ Wr(len - 1)
Gap     == ~ro /\ \E o \in {len + RE(1..4)} : Wr(o)
Burst   == ~ro /\ \E n \in {IF Big THEN RE({63, 255, 511, 513, 600, 700, 1366, 1400}) ELSE RE(2..12)},
                    o \in {IF RE(1..4) = 1 /\ len > 0 THEN RE(0..len - 1) ELSE len} :
             /\ Log([op |-> "run", off |-> o, n |-> n, seed |-> RE(0..199)])
             /\ len' = IF o + n > len THEN o + n ELSE len
Read    == Log([op |-> "read", off |-> RE(0..len)]) /\ UNCHANGED len
ReadIn  == len > 0 /\ Log([op |-> "read", off |-> RE(0..len - 1)]) /\ UNCHANGED len
ReadEnd == len > 0 /\ Log([op |-> "read", off |-> len - 1]) /\ UNCHANGED len
Count   == Log([op |-> "count"]) /\ UNCHANGED len
Dump    == Log([op |-> "dump"]) /\ UNCHANGED len
Whole   == ~Hash /\ ~ro /\ Log([op |-> "whole"]) /\ UNCHANGED len
Sync    == ~ro /\ Log([op |-> "sync"]) /\ UNCHANGED len
Reopen  == /\ \E k \in {IF RE(1..3) = 1 THEN RE(RO) ELSE RE(RW)} :
                /\ hist' = hist \o <<[op |-> "close"], [op |-> "reopen", kind |-> k]>>
                /\ ro' = (k \in {"ro", "roshadow", "mmap"})
           /\ UNCHANGED len
\* after a crash the length is not known to the generator: it re-learns nothing and continues from 0 for
\* reads; a crash is therefore followed by a sync point and the end of the history, or comes after a sync
Crash   == /\ Crashes /\ ~ro
           /\ \E k \in RW : Log([op |-> "crash", kind |-> k])
           /\ len' = 0
\* the disk is full, the process out of descriptors, or neither any more
Limit   == /\ Full /\ UNCHANGED len
           /\ Log([op |-> "limit", bytes |-> RE({-1, -1, 0, 1, 7, 31, 40, 64, 100, 333, 500, 2000, 4095, 4096, 4097, 5000, 9000}),
                   files |-> IF RE(1..5) = 1 THEN 0 ELSE -1])
\* the k-th operation of a kind on the files fails from now on, or all from the k-th
Fault == /\ Full /\ UNCHANGED len
         /\ Log([op |-> "limit", kind |-> RE({"write", "write", "read", "sync", "open"}), in |-> "", k |-> RE(1..4), part |-> 0, ever |-> RE(0..1)])
Next == /\ Len(hist) < D /\ UNCHANGED done
        /\ \/ /\ UNCHANGED ro
              /\ \/ AppendW \/ AppendH \/ Over \/ Last \/ Gap \/ Burst \/ Read \/ ReadIn \/ ReadEnd
                 \/ Count \/ Dump \/ Whole \/ Sync \/ Crash \/ Limit \/ Fault
           \/ Reopen
Finish == Len(hist) >= D /\ ~done /\ done' = TRUE
          /\ PrintT("GEN " \o ToJson(hist \o (IF Crashes THEN <<[op |-> "crash", kind |-> hist[1].kind]>>
                                              ELSE <<[op |-> "dump"], [op |-> "close"]>>)))
          /\ UNCHANGED <<len, hist, ro>>
Spec == Init /\ [][Next \/ Finish]_vars
=============================================================================
