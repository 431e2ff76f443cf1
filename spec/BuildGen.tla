------------------------------ MODULE BuildGen -------------------------------
(* Histories of a pre-built hash index: build over a list of hashes from a    *)
(* universe 1..U (by either preloader), query, reopen, append, build again.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES hist, done, list
vars == <<hist, done, list>>
D == atoi(IOEnv.GEN_DEPTH)
U == atoi(IOEnv.GEN_U)
CanAppend == IOEnv.GEN_APPEND = "1"
CanMulti == IOEnv.GEN_MULTI = "1"
RE(S) == RandomElement(S)
Log(op) == hist' = hist \o op
In == {list[k] : k \in 1..Len(list)}
Sizes == {0, 1, 2, 3, 5, 8, U, U + 3, 2 * U}
ManyOf(z, n, u) == [k \in 1..n |-> RE(1..u)]
\* all of the universe's first n, in a shuffled-by-stride order, with some repeats
Stride(n, s) == [k \in 1..n |-> 1 + ((k * s) % U)]
Lists(z) == LET n == RE(Sizes) IN
  IF RE(1..3) = 1 THEN ManyOf(z, n, U) ELSE IF RE(1..2) = 1 THEN ManyOf(z, n, RE(1..U)) ELSE Stride(n, RE(1..U))
All(l) == [op |-> "q", finds |-> [k \in 1..U |-> k], gets |-> [k \in 1..Len(l) + 1 |-> k - 1]]
\* while certain operations on files fail (H04): the build fails, or succeeds
FULL == "GEN_FULL" \in DOMAIN IOEnv /\ IOEnv.GEN_FULL = "1"
Fault(kinds, z) == [op |-> "limit", kind |-> RE(kinds), in |-> RE({"", "", "", ".bes", "BinStarts", "Params", ".hsh"}),
                    k |-> RE(1..4) + (IF RE(1..2) = 1 THEN RE(0..20) ELSE 0), part |-> RE({0, 0, 1, 3, 100}), ever |-> RE(0..1)]
\* (reading the hashes may panic in a worker: nothing reads or opens badly but the index itself)
Writes(z) == Fault({"write", "write", "mkdir"}, z)
Reads(z) == [Fault({"open", "read"}, z) EXCEPT !.in = RE({".bes", "Params"})]
Failing(z) == IF ~FULL \/ RE(1..2) = 1 THEN <<>> ELSE IF RE(1..4) = 1 THEN <<Reads(z)>> ELSE <<Writes(z)>>
Build == \E l \in {Lists(Len(hist))} :
  /\ list' = l
  /\ Log(Failing(Len(hist)) \o <<[op |-> "build", ids |-> l, method |-> IF CanMulti THEN RE({"adaptive", "multi"}) ELSE "adaptive",
            threads |-> RE({1, 2, 3, 4, 8, 16}), gb |-> RE({0, 1}), prebins |-> RE({1, 3, 16, 100}),
            pass |-> RE({0, 1, 2, 3, 5})], All(l)>>)
Init == hist = <<>> /\ done = FALSE /\ list = <<>>
App == CanAppend /\ list # <<>> /\ \E h \in {RE(1..U)} :
         Log(<<[op |-> "append", h |-> h]>>) /\ list' = Append(list, h)
Query == list # <<>> /\ Log(<<All(list)>>) /\ UNCHANGED list
Badly == /\ FULL /\ list # <<>> /\ UNCHANGED list
         /\ Log(<<Fault({"read", "open"}, Len(hist))>> \o (IF RE(1..2) = 1 THEN <<[op |-> "reopen", ro |-> RE(0..1)]>> ELSE <<>>)
                \o <<All(list), All(list), [op |-> "lift"], [op |-> "reopen"], All(list)>>)
Reopen == list # <<>> /\ Log(<<[op |-> "reopen", ro |-> 0], All(list)>>) /\ UNCHANGED list
First == Len(hist) = 0 /\ Build /\ UNCHANGED done
Next == Len(hist) > 0 /\ Len(hist) < D /\ UNCHANGED done /\ (App \/ App \/ Query \/ Reopen \/ Build \/ Badly)
Finish == Len(hist) >= D /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, list>>
          /\ PrintT("GEN " \o ToJson(hist \o <<[op |-> "reopen", ro |-> 1], All(list)>>))
Spec == Init /\ [][First \/ Next \/ Finish]_vars
=============================================================================
