------------------------------- MODULE MapGen -------------------------------
(* Histories of a growing-array map.  Keys are drawn from a few buckets of    *)
(* very different magnitude (hence different folders), so that the pattern    *)
(* recent / older / older still / back again occurs in every order.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist, done, used
vars == <<hist, done, used>>
D == atoi(IOEnv.GEN_DEPTH)
P == atoi(IOEnv.GEN_PERFILE)         \* keys per bucket file
Crashes == IOEnv.GEN_CRASH = "1"
Full == "GEN_FULL" \in DOMAIN IOEnv /\ IOEnv.GEN_FULL = "1"
RE(S) == RandomElement(S)
Log(op) == hist' = Append(hist, op)
BucketNos == {0, 1, 2, 3, 9, 10, 11, 42, 99, 100, 101, 999, 1000, 1234, 9999, 10000, 12345}
AKey(z) == RE(BucketNos) * P + RE({0, 1, P - 1} \cap 0..P - 1)
Key(z) == IF used # {} /\ RE(1..3) > 1 THEN RE(used) ELSE AKey(Len(hist))
V(z) == RE(0..200)
Init == hist = <<[op |-> "new"]>> /\ done = FALSE /\ used = {}
App  == \E k \in {Key(Len(hist))} : Log([op |-> "append", key |-> k, v |-> V(Len(hist))]) /\ used' = used \cup {k}
Run  == \E k \in {Key(Len(hist))} : \E n \in {IF RE(1..4) = 1 THEN RE({252, 253, 254, 300}) ELSE RE(2..6)} :
          Log([op |-> "run", key |-> k, n |-> n, seed |-> RE(0..199)]) /\ used' = used \cup {k}
Get  == used # {} /\ Log([op |-> "get", key |-> RE(used)]) /\ UNCHANGED used
GetU == Log([op |-> "get", key |-> AKey(Len(hist))]) /\ UNCHANGED used
Sync == Log([op |-> RE({"sync", "flush"}), keys |-> used]) /\ UNCHANGED used
Reopen == hist' = hist \o <<[op |-> "sync", keys |-> used], [op |-> "reopen"]>> /\ UNCHANGED used
Crash == Crashes /\ Log([op |-> "crash", keys |-> used]) /\ UNCHANGED used
Limit == Full /\ UNCHANGED used
         /\ Log([op |-> "limit", bytes |-> RE({-1, -1, -1, -1, 0, 1, 2, 5, 10, 30, 100, 300}), files |-> IF RE(1..3) = 1 THEN 0 ELSE -1])
\* the k-th operation of a kind on the files fails from now on, or all from the k-th
Fault == /\ Full /\ UNCHANGED used
         /\ Log([op |-> "limit", kind |-> RE({"write", "write", "read", "rename", "open", "open", "mkdir"}), in |-> "", k |-> RE(1..4), part |-> RE({0, 1, 5, 40}), ever |-> RE(0..1)])
Next == Len(hist) < D /\ UNCHANGED done
        /\ (App \/ App \/ Run \/ Get \/ GetU \/ Sync \/ Reopen \/ Crash \/ Limit \/ Fault)
Finish == Len(hist) >= D /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, used>>
          /\ PrintT("GEN " \o ToJson(hist \o (IF Full THEN <<[op |-> "limit", bytes |-> -1, files |-> -1]>> ELSE <<>>)
                                       \o <<[op |-> IF Crashes THEN "crash" ELSE "sync", keys |-> used]>>))
Spec == Init /\ [][Next \/ Finish]_vars
=============================================================================
