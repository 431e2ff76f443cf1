------------------------------- MODULE FileGen -------------------------------
(* Behaviours of the plain file, generated for replay on the real code.       *)
(* Offsets are chosen relative to the current length so that appends,         *)
(* overwrites that straddle the end, and writes beyond the end all occur.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Randomization
VARIABLES len, hist, kind, closed
vars == <<len, hist, kind, closed>>
D == atoi(IOEnv.GEN_DEPTH)
Kinds == IF IOEnv.GEN_KIND = "ao" THEN {"ao"} ELSE IF IOEnv.GEN_KIND = "fixed" THEN {"fixed"} ELSE {"mmap"}
MaxLen == 24
RE(S) == RandomElement(S)
Data(n) == [k \in 1..n |-> RE(1..200)]
Log(op) == hist' = Append(hist, op)

Init == /\ kind \in Kinds /\ closed = FALSE
        /\ \E n \in (IF IOEnv.GEN_KIND = "ao" THEN 0..4 ELSE 1..9) :
             /\ len = n /\ hist = <<[op |-> "new", kind |-> kind, init |-> Data(n)]>>

CanGrow == kind = "ao"
WriteAppend == /\ CanGrow /\ len < MaxLen
               /\ \E n \in {RE({1, 2, 3, 5, 9})} :
                  Log([op |-> "write", off |-> len, data |-> Data(n)]) /\ len' = len + n
WriteInside == /\ len > 0
               /\ \E off \in {RE(0 .. len - 1)} : \E n \in {RE(1 .. (IF CanGrow THEN (len - off) + 2 ELSE len - off))} :
                  /\ Log([op |-> "write", off |-> off, data |-> Data(n)])
                  /\ len' = IF off + n > len THEN off + n ELSE len
WriteBeyond == /\ CanGrow /\ len < MaxLen
               /\ \E off \in {len + RE(1..3)}, n \in {RE(1..3)} :
                  Log([op |-> "write", off |-> off, data |-> Data(n)]) /\ len' = off + n
WriteRun == /\ CanGrow /\ len < MaxLen      \* a burst of one-block appends
            /\ LET n == RE(2..6) IN
               /\ hist' = hist \o [k \in 1..n |-> [op |-> "write", off |-> len + k - 1, data |-> Data(1)]]
               /\ len' = len + n
Read     == Log([op |-> "read", off |-> RE(0..len), n |-> RE(1..5)]) /\ UNCHANGED len
ReadTail == len > 0 /\ Log([op |-> "read", off |-> len - 1, n |-> RE(1..2)]) /\ UNCHANGED len
Size     == kind # "fixed" /\ Log([op |-> "size"]) /\ UNCHANGED len
ReadAll  == kind # "fixed" /\ Log([op |-> "readall"]) /\ UNCHANGED len
Sync     == Log([op |-> "sync"]) /\ UNCHANGED len
Reopen   == hist' = hist \o <<[op |-> "close"], [op |-> "reopen", kind |-> kind]>> /\ UNCHANGED len

Next == /\ Len(hist) < D
        /\ \/ WriteAppend \/ WriteInside \/ WriteBeyond \/ WriteRun \/ Read \/ ReadTail
           \/ Size \/ ReadAll \/ Sync \/ Reopen
        /\ UNCHANGED <<kind, closed>>
Finish == Len(hist) >= D /\ ~closed /\ closed' = TRUE
          /\ PrintT("GEN " \o ToJson(Append(hist, [op |-> "close"])))
          /\ UNCHANGED <<len, hist, kind>>
Spec == Init /\ [][Next \/ Finish]_vars
=============================================================================
