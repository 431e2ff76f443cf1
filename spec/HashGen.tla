------------------------------- MODULE HashGen -------------------------------
(* Histories of a hash store over a universe of hashes 1..U.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES hist, done, list
vars == <<hist, done, list>>
D == atoi(IOEnv.GEN_DEPTH)
U == atoi(IOEnv.GEN_U)
RE(S) == RandomElement(S)
Log(op) == hist' = Append(hist, op)
In == {list[k] : k \in 1..Len(list)}
Finds(z) == RE({<<RE(1..U), RE(1..U), RE(1..U)>>}) \o (IF list = <<>> THEN <<>> ELSE <<RE(In), RE(In), list[Len(list)]>>)
Gets(z) == <<RE(0..Len(list)), Len(list) - 1 + RE(0..2), RE(0..Len(list))>>
Q(o, z) == [op |-> o, finds |-> Finds(z), gets |-> Gets(z), ro |-> RE({0, 1})]
AHash(z) == IF list # <<>> /\ RE(1..6) = 1 THEN RE(In) ELSE IF In # 1..U THEN RE((1..U) \ In) ELSE RE(In)
Init == hist = <<[op |-> "new"]>> /\ done = FALSE /\ list = <<>>
App   == \E h \in {AHash(Len(hist))} : Log([op |-> "append", h |-> h]) /\ list' = Append(list, h)
Burst == \E n \in {RE(2..7)} : \E s \in {[k \in 1..n |-> AHash(k)]} :
            hist' = hist \o [k \in 1..n |-> [op |-> "append", h |-> s[k]]] /\ list' = list \o s
Query == Log(Q("q", Len(hist))) /\ UNCHANGED list
Sync  == Log(Q("sync", Len(hist))) /\ UNCHANGED list
Reopen == Log([op |-> "reopen"]) /\ UNCHANGED list
\* while certain operations on files fail (H04), nothing is appended
FULL == "GEN_FULL" \in DOMAIN IOEnv /\ IOEnv.GEN_FULL = "1"
Fault(z) == [op |-> "limit", kind |-> RE({"read", "read", "open"}), in |-> "", k |-> RE(1..4) + (IF RE(1..3) = 1 THEN RE(1..12) ELSE 0),
             part |-> 0, ever |-> RE(0..1)]
Asked(z) == IF RE(1..3) = 1 THEN <<[op |-> "reopen", ro |-> RE(0..1)], Q("q", z)>> ELSE <<Q("q", z)>>
\* what is appended then is there afterwards, unless a failure was reported
Bad(z) == [Fault(z) EXCEPT !.kind = RE({"write", "write", "write", "read", "open", "mkdir", "sync"}), !.k = RE(1..6), !.part = RE({0, 0, 1, 7, 40})]
AtEnd(n) == <<Bad(n)>> \o [k \in 1..3 |-> [op |-> "append", h |-> AHash(n + k)]]
            \o <<[op |-> "sync", finds |-> <<>>, gets |-> <<>>, ro |-> 0], [op |-> "reopen"], [op |-> "lift"],
                  [op |-> "q", finds |-> [k \in 1..U |-> k], gets |-> [k \in 1..n + 3 |-> k - 1]]>>
Appending == FULL /\ \E n \in {RE(1..4)} : \E a \in {[k \in 1..n |-> AHash(k)]} :
   /\ hist' = hist \o <<Bad(n)>> \o [k \in 1..n |-> [op |-> "append", h |-> a[k]]]
                   \o (IF RE(1..2) = 1 THEN <<[op |-> "sync", finds |-> <<>>, gets |-> <<>>, ro |-> 0]>> ELSE <<>>)
                   \o (IF RE(1..2) = 1 THEN <<[op |-> "reopen", ro |-> 0]>> ELSE <<>>)
                   \o <<[op |-> "lift"], [op |-> "q", finds |-> a, gets |-> <<>>], [op |-> "reopen"], [op |-> "q", finds |-> a, gets |-> <<Len(list)>>]>>
   /\ list' = list \o a
Failing == FULL /\ \E a \in {Asked(Len(hist))} :
             hist' = hist \o <<Fault(Len(hist))>> \o a \o (IF RE(1..3) = 1 THEN a ELSE <<>>) \o <<[op |-> "lift"], [op |-> "reopen"], Q("q", Len(hist))>> /\ UNCHANGED list
Next == Len(hist) < D /\ UNCHANGED done /\ (App \/ Burst \/ Query \/ Sync \/ Reopen \/ Failing \/ (Appending /\ RE(1..3) = 1))
All == [op |-> "q", finds |-> [k \in 1..U |-> k], gets |-> [k \in 1..Len(list) + 1 |-> k - 1]]
Finish == Len(hist) >= D /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, list>>
          /\ PrintT("GEN " \o ToJson(hist \o <<All, [op |-> "reopen"], All>>
                     \o (IF FULL THEN <<Fault(0), All, Fault(1), All, [op |-> "reopen"], All, [op |-> "lift"], All>> \o AtEnd(Len(list)) ELSE <<>>)))
Spec == Init /\ [][Next \/ Finish]_vars
=============================================================================
