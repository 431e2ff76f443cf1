---------------------------- MODULE HeaderStream -----------------------------
(* Streaming the first N block hashes out of windows of W headers.  A header  *)
(* tells its predecessor's hash; so a full window gives W - 2 hashes and the  *)
(* hash at which the next window starts, and a window that is not full is the *)
(* end of the chain.  The chain may grow meanwhile; a request may fail.       *)
EXTENDS Integers, Sequences
CONSTANTS W, MaxLen, MaxN
VARIABLES len0, len, n, at, sent, end
vars == <<len0, len, n, at, sent, end>>
Init == len0 \in 1..MaxLen /\ len = len0 /\ n \in 0..MaxN /\ at = 0 /\ sent = <<>> /\ end = (IF n = 0 THEN "closed" ELSE "")
Grow == len < MaxLen /\ len' = len + 1 /\ UNCHANGED <<len0, n, at, sent, end>>
Count == IF len - at < W THEN len - at ELSE W
Run(k) == [j \in 1..k |-> at + j - 1]
Window == /\ end = ""
          /\ LET full == Count = W
                 gives == IF full THEN W - 2 ELSE Count
                 k == IF Len(sent) + gives < n THEN gives ELSE n - Len(sent)
             IN  /\ sent' = sent \o Run(k)
                 /\ end' = IF Len(sent) + k = n \/ ~full THEN "closed" ELSE ""
                 /\ at' = at + gives
          /\ UNCHANGED <<len0, len, n>>
Fail == end = "" /\ end' = "error" /\ UNCHANGED <<len0, len, n, at, sent>>
Next == Grow \/ Window \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Window)
Min2(a, b) == IF a < b THEN a ELSE b
InOrder == sent = [j \in 1..Len(sent) |-> j - 1]
Complete == end = "closed" => Len(sent) >= Min2(n, len0) /\ Len(sent) <= Min2(n, len)
Short == Len(sent) <= n
Ends == <>(end # "")
=============================================================================
