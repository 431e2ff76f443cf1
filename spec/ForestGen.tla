------------------------------ MODULE ForestGen ------------------------------
(* Histories of baking: lists of named hashes (1..U; repeated ones if DUP), of   *)
(* very different lengths, re-opens, and questions.  Everything is asked in the   *)
(* end.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES hist, done, in, n
vars == <<hist, done, in, n>>
D == atoi(IOEnv.GEN_DEPTH)
U == atoi(IOEnv.GEN_U)
DUP == atoi(IOEnv.GEN_DUP)
MOST == atoi(IOEnv.GEN_MOST)
FULL == "GEN_FULL" \in DOMAIN IOEnv
RE(S) == RandomElement(S)
Log(op) == hist' = hist \o op
RECURSIVE Pick(_, _, _, _)
\* k names: new ones while there are any, some repeated; in = those used before
Pick(k, was, acc, z) ==
  IF k = 0 THEN acc
  ELSE LET free == (1..U) \ was
           x == IF was # {} /\ DUP > 0 /\ (free = {} \/ RE(1..4) <= DUP) THEN RE(was) ELSE IF free = {} THEN 0 ELSE RE(free)
       IN IF x = 0 THEN acc ELSE Pick(k - 1, was \cup {x}, Append(acc, x), z + 1)
Sizes == IF MOST >= U THEN {U} ELSE IF MOST > 60 THEN {9, MOST} ELSE ({1, 2, 3, 4, 6, 9, 14, 30} \cap (1..MOST)) \cup {MOST}
Ask == <<[op |-> "find"], [op |-> "get"]>>
Init == hist = <<>> /\ done = FALSE /\ in = {} /\ n = 0
\* before bake z + 1, or an opening (-1): a full disk (files can not grow beyond so many bytes), few descriptors left, or an operation that fails
\* (the check sees to it that each operation of a bake has its turn)
Fault(z) == [op |-> "fault", kind |-> "", in |-> "", k |-> 0, part |-> RE({0, 0, 1, 3, 100}), ever |-> RE(0..1)]
Limit(z) == IF ~FULL \/ RE(1..3) = 1 THEN <<>>
            ELSE IF RE(1..4) # 1 THEN <<Fault(z)>>
            ELSE IF z >= 0 /\ RE(1..2) = 1 THEN <<[op |-> "limit", bytes |-> RE({0, 8, 64, 200, 513, 1000, 2000, 3000, 66000, 131072, 140000, 262144, 300000}) + RE(0..60), files |-> -1]>>
            ELSE <<[op |-> "limit", bytes |-> -1, files |-> IF z < 0 THEN RE(4..14) ELSE RE(6..60)]>>
Bake == \E k \in {RE(Sizes)} : \E s \in {Pick(k, in, <<>>, Len(hist))} :
          s # <<>> /\ Log(Limit(n) \o <<[op |-> "bake", ids |-> s], [op |-> "disk"]>>) /\ in' = in \cup {s[j] : j \in 1..Len(s)} /\ n' = n + 1
Query == n > 0 /\ Log(Ask) /\ UNCHANGED <<in, n>>
Reopen == n > 0 /\ Log(Limit(-1) \o <<[op |-> "reopen"]>>) /\ UNCHANGED <<in, n>>
Next == n < D /\ UNCHANGED done /\ (Bake \/ Bake \/ Query \/ Reopen)
Stuck == in = 1..U /\ DUP = 0
Finish == (n >= D \/ Stuck) /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, in, n>>
          /\ PrintT("GEN " \o ToJson(hist \o Ask \o <<[op |-> "reopen"]>> \o Ask))
Spec == Init /\ [][Next \/ Finish]_vars
===============================================================================
