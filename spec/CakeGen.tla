------------------------------- MODULE CakeGen -------------------------------
(* Histories of a layered hash store whose top tier holds Cap hashes: small    *)
(* appends of named hashes (1..U, possibly repeated), fills of pseudo-random   *)
(* ones that end just before, at or just after a bake, lookups on both sides   *)
(* of every boundary, syncs and re-opens (read-only ones too).                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES hist, done, list, tot, nf, ro
vars == <<hist, done, list, tot, nf, ro>>
D == atoi(IOEnv.GEN_DEPTH)
U == atoi(IOEnv.GEN_U)
DUP == atoi(IOEnv.GEN_DUP)
B == atoi(IOEnv.GEN_BAKES)
N == atoi(IOEnv.GEN_N)
FAM == atoi(IOEnv.GEN_FAM)
Cap == 65535
Fill0 == 1000000
RE(S) == RandomElement(S)
Log(op) == hist' = Append(hist, op)
In == {list[k] : k \in 1..Len(list)}
New1(z) == IF ~(1..N \subseteq In) /\ RE(1..3) > 1 THEN RE((1..N) \ In) ELSE RE((1..U) \ In)
Named(z) == IF In # {} /\ (In = 1..U \/ RE(1..4) <= DUP) THEN RE(In) ELSE New1(z)
CanName == In # 1..U \/ DUP > 0
Bounds == {k * Cap : k \in 0..(tot \div Cap)}
Finds(z) == <<<<1, U, 1>>, <<Fill0 + RE(0..97), RE(20..60), RE({1, 7, 1009})>>, <<Fill0 + (IF nf > 3 THEN nf - 3 ELSE 0), 6, 1>>>>
            \o (IF nf > 2 * Cap THEN <<<<Fill0 + RE(0..nf - Cap), 64, 1>>>> ELSE <<>>)
Gets(z) == <<<<-2, 5, 1>>, <<tot - 3, 6, 1>>, <<RE(Bounds) - 3, 7, 1>>, <<RE(0..tot), 5, 97>>>>
Q(z) == [op |-> "q", finds |-> Finds(z), gets |-> Gets(z)]
Init == hist = <<[op |-> "new"]>> /\ done = FALSE /\ list = <<>> /\ tot = 0 /\ nf = 0 /\ ro = FALSE
App == /\ ~ro /\ CanName
       /\ \E n \in {RE(1..3)} : \E s \in {[k \in 1..n |-> Named(k)]} :
            LET t == IF DUP = 0 THEN <<s[1]>> ELSE s IN
            Log([op |-> "app", ids |-> t]) /\ list' = list \o t /\ tot' = tot + Len(t)
       /\ UNCHANGED <<nf, ro>>
RECURSIVE AnyOrder(_)
AnyOrder(S) == IF S = {} THEN <<>> ELSE LET x == RE(S) IN <<x>> \o AnyOrder(S \ {x})
Fam == /\ ~ro /\ ~(1..N \subseteq In)
       /\ \E s \in {AnyOrder((1..N) \ In)} : Log([op |-> "app", ids |-> s]) /\ list' = list \o s /\ tot' = tot + Len(s)
       /\ UNCHANGED <<nf, ro>>
FillN(n) == /\ Log([op |-> "fill", id |-> Fill0 + nf, n |-> n]) /\ tot' = tot + n /\ nf' = nf + n /\ UNCHANGED <<list, ro>>
Fill == ~ro /\ \E n \in {RE(1..300)} : FillN(n)
Bake == /\ ~ro /\ tot < B * Cap - 5
        /\ \E n \in {RE({m \in {((tot \div Cap) + 1) * Cap + d - tot : d \in {-2, -1, 0, 1, 2, 5}} : m > 0})} : FillN(n)
Query == Log(Q(Len(hist))) /\ UNCHANGED <<list, tot, nf, ro>>
Sync  == ~ro /\ Log([op |-> "sync"]) /\ UNCHANGED <<list, tot, nf, ro>>
Reopen == \E r \in {IF RE(1..4) = 1 THEN 1 ELSE 0} : Log([op |-> "reopen", ro |-> r]) /\ ro' = (r = 1) /\ UNCHANGED <<list, tot, nf>>
\* bakes are behind schedule: B of them in all
Late == ~ro /\ tot < B * Cap - 5 /\ (tot \div Cap) * (D - 3) < B * (Len(hist) - 3)
Next == Len(hist) < D /\ UNCHANGED done /\ (IF FAM = 1 /\ Len(hist) = 2 /\ ENABLED Fam THEN Fam ELSE IF Late THEN Bake ELSE Fam \/ App \/ App \/ Fill \/ Bake \/ Query \/ Sync \/ Reopen)
All == [op |-> "q", finds |-> <<<<1, U, 1>>, <<Fill0, (nf \div 17) + 2, 17>>, <<Fill0 + (IF nf > 40 THEN nf - 40 ELSE 0), 80, 1>>>>,
                    gets |-> <<<<0, (tot \div 53) + 2, 53>>, <<tot - 40, 45, 1>>>>]
Finish == Len(hist) >= D /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, list, tot, nf, ro>>
          /\ PrintT("GEN " \o ToJson(hist \o <<All, [op |-> "reopen", ro |-> 0], All>>))
Spec == Init /\ [][Next \/ Finish]_vars
=============================================================================
