------------------------------- MODULE BinMC ---------------------------------
(* A bin of the pre-built index: entries <<sn, th, hi>> appended in file      *)
(* order, sorted by (sn, hi), repeated hashes removed, then searched by a     *)
(* secant-like search whose probe is ANY position strictly inside the range   *)
(* (the real one is computed in floating point).  Exhaustive: every list of   *)
(* up to MaxLen hashes over SN x TH, every choice of probes: the search ends  *)
(* at the first entry with sn' >= sn and the lookup gives the first index.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS SN, TH, MaxLen
VARIABLES list, bin, phase, want, lo, hi
vars == <<list, bin, phase, want, lo, hi>>
Hash == SN \X TH
Init == list = <<>> /\ bin = <<>> /\ phase = "fill" /\ want = <<0, 0>> /\ lo = 0 /\ hi = 0
Fill == phase = "fill" /\ Len(list) < MaxLen /\ \E h \in Hash : list' = Append(list, h)
        /\ UNCHANGED <<bin, phase, want, lo, hi>>
Entries == [k \in 1..Len(list) |-> [sn |-> list[k][1], th |-> list[k][2], hi |-> k - 1]]
Less(a, b) == a.sn < b.sn \/ (a.sn = b.sn /\ a.hi < b.hi)
RECURSIVE Dedup(_, _)
Dedup(s, k) == IF k > Len(s) THEN s
               ELSE IF s[k].th = s[k - 1].th /\ s[k].sn = s[k - 1].sn THEN Dedup(SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s)), k)
               ELSE Dedup(s, k + 1)
Build == phase = "fill" /\ bin' = Dedup(SortSeq(Entries, Less), 2) /\ phase' = "ask"
         /\ UNCHANGED <<list, want, lo, hi>>
Ask == phase = "ask" /\ \E h \in Hash : want' = h
       /\ lo' = 1 /\ hi' = Len(bin)
       /\ phase' = (IF Len(bin) = 0 THEN "found" ELSE IF Len(bin) = 1 /\ h[1] > bin[1].sn THEN "past" ELSE "search")
       /\ UNCHANGED <<list, bin>>
End(k) == lo' = k /\ hi' = k /\ phase' = "found" /\ UNCHANGED <<list, bin, want>>
FirstOf(k) == CHOOSE j \in 1..k : bin[j].sn = bin[k].sn /\ (j = 1 \/ bin[j - 1].sn < bin[k].sn)
Search == /\ phase = "search"
          /\ LET sn == want[1] IN
             IF lo = hi \/ sn <= bin[lo].sn THEN End(lo)
             ELSE IF sn > bin[hi].sn THEN End(hi + 1)
             ELSE IF sn = bin[hi].sn THEN End(FirstOf(hi))
             ELSE IF hi - lo = 1 THEN End(hi)
             ELSE \E m \in lo + 1..hi - 1 :
                    IF bin[m].sn < sn THEN lo' = m /\ UNCHANGED <<list, bin, phase, want, hi>>
                    ELSE IF bin[m].sn > sn THEN hi' = m /\ UNCHANGED <<list, bin, phase, want, lo>>
                    ELSE End(FirstOf(m))
Past == phase = "past" /\ End(2)
Next == Fill \/ Build \/ Ask \/ Search \/ Past
Spec == Init /\ [][Next]_vars
\* the search result, then the forward scan
FirstGE == phase = "found" /\ Len(bin) > 0 =>
             \A k \in 1..Len(bin) : (k < lo => bin[k].sn < want[1]) /\ (k >= lo => bin[k].sn >= want[1])
Matches == {k \in 1..Len(bin) : k >= lo /\ bin[k].sn = want[1] /\ bin[k].th = want[2]}
Answer == IF Len(bin) = 0 \/ Matches = {} THEN -1 ELSE bin[CHOOSE k \in Matches : \A j \in Matches : k <= j].hi
Hs == list
H == INSTANCE HashIndex WITH hs <- list
Right == phase = "found" => H!IsIndexOf(want, Answer)
=============================================================================
