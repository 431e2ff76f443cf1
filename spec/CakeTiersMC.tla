----------------------------- MODULE CakeTiersMC -----------------------------
(* The tiers of a layered hash store.  Appends go to the top tier, which holds  *)
(* Cap hashes; a full top tier is baked into one forest of the tier below, and  *)
(* a tier that has its quota of forests is baked into one forest of the next.   *)
(* Each bake is taken apart into the steps that change the disk and the steps   *)
(* that change what is open: write the forest, append the hashes, empty the     *)
(* source (which closes the destination), open the destination again, hand it   *)
(* to the source together with the tiers that follow it.                        *)
(* A forest keeps one entry per distinct hash (the first presentation, relative *)
(* to the forest's own first index); a lookup in a tree can be led to an entry  *)
(* of a different hash that agrees on the bytes examined, so it is only a       *)
(* candidate until the tier's hash file confirms it.                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS H, Cap, Quota, Max, Verify
\* a forest: [first, ents]; ents maps a hash to its offset from first, plus one
VARIABLES list, top, topFirst, files, forests, open, pc, src
vars == <<list, top, topFirst, files, forests, open, pc, src>>
T == Len(Quota)                        \* tiers below the top: 1..T
Closed == [ok |-> FALSE, fs |-> <<>>, base |-> 0, file |-> <<>>]
Q1 == <<2, 2, 99>>
Q2 == <<1, 3, 99>>
SeqOf(s) == {s[k] : k \in 1..Len(s)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
FirstIn(s, h) == Min({k \in 1..Len(s) : s[k] = h}) - 1
Init == /\ list = <<>> /\ top = <<>> /\ topFirst = 0
        /\ files = [t \in 1..T |-> <<>>] /\ forests = [t \in 1..T |-> <<>>]
        /\ open = [t \in 1..T |-> [ok |-> TRUE, fs |-> <<>>, base |-> 0, file |-> <<>>]]
        /\ pc = "idle" /\ src = 0
Base(t) == IF forests[t] = <<>> THEN 0 ELSE forests[t][1].first
Image(t) == [ok |-> TRUE, fs |-> forests[t], base |-> Base(t), file |-> files[t]]
Add(h) == /\ pc = "idle" /\ Len(list) < Max
          /\ list' = Append(list, h) /\ top' = Append(top, h)
          /\ pc' = (IF Len(top') = Cap THEN "forest" ELSE "idle") /\ src' = 0
          /\ UNCHANGED <<topFirst, files, forests, open>>
\* what the source tier holds, as <<hash, global index>> pairs: every forest's entries, one per hash
SrcFile == IF src = 0 THEN top ELSE files[src]
SrcFirst == IF src = 0 THEN topFirst ELSE forests[src][1].first
SrcEntries == IF src = 0 THEN {<<h, topFirst + FirstIn(top, h)>> : h \in SeqOf(top)}
              ELSE LET all == UNION {{<<h, forests[src][f].first + forests[src][f].ents[h] - 1>> : h \in DOMAIN forests[src][f].ents} : f \in 1..Len(forests[src])}
                   IN {e \in all : \A d \in all : d[1] = e[1] => e[2] <= d[2]}
WriteForest == /\ pc = "forest" /\ src < T
               /\ LET es == SrcEntries IN
                  forests' = [forests EXCEPT ![src + 1] = Append(@, [first |-> SrcFirst,
                      ents |-> [h \in {e[1] : e \in es} |-> (CHOOSE e \in es : e[1] = h)[2] - SrcFirst + 1]])]
               /\ pc' = "hashes" /\ UNCHANGED <<list, top, topFirst, files, open, src>>
WriteHashes == /\ pc = "hashes" /\ files' = [files EXCEPT ![src + 1] = @ \o SrcFile]
               /\ pc' = "empty" /\ UNCHANGED <<list, top, topFirst, forests, open, src>>
EmptySource == /\ pc = "empty"
               /\ open' = [t \in 1..T |-> IF t = src + 1 THEN Closed ELSE IF t = src THEN Image(t) ELSE open[t]]
               /\ IF src = 0 THEN top' = <<>> /\ topFirst' = topFirst + Len(top) /\ UNCHANGED <<files, forests>>
                  ELSE files' = [files EXCEPT ![src] = <<>>] /\ forests' = [forests EXCEPT ![src] = <<>>] /\ UNCHANGED <<top, topFirst>>
               /\ pc' = "open" /\ UNCHANGED <<list, src>>
OpenDest == /\ pc = "open"
            /\ open' = [t \in 1..T |-> IF t = src + 1 THEN Image(t)
                                       ELSE IF t = src THEN [ok |-> TRUE, fs |-> <<>>, base |-> 0, file |-> <<>>] ELSE open[t]]
            /\ IF Len(forests[src + 1]) = Quota[src + 1] THEN (pc' = "forest" /\ src' = src + 1) ELSE (pc' = "idle" /\ src' = 0)
            /\ UNCHANGED <<list, top, topFirst, files, forests>>
Reopen == /\ pc = "idle" /\ open' = [t \in 1..T |-> Image(t)] /\ UNCHANGED <<list, top, topFirst, files, forests, pc, src>>
Next == (\E h \in H : Add(h)) \/ WriteForest \/ WriteHashes \/ EmptySource \/ OpenDest \/ Reopen
Spec == Init /\ [][Next]_vars
\* --- lookups, as a reader performs them on what is open
\* candidates of one forest for hash h: with no bytes examined any entry can come up
Cands(fr, h) == IF h \in DOMAIN fr.ents THEN {fr.first + fr.ents[h] - 1} ELSE {fr.first + fr.ents[d] - 1 : d \in DOMAIN fr.ents}
Confirmed(o, g, h) == ~Verify \/ o.file[g - o.base + 1] = h
\* the possible answers of tier t: the first forest whose candidate is confirmed
RECURSIVE TierAns(_, _, _)
TierAns(o, f, h) ==
  IF f > Len(o.fs) THEN {-1}
  ELSE LET later == TierAns(o, f + 1, h)
           cs == Cands(o.fs[f], h)
       IN {g \in cs : Confirmed(o, g, h)} \cup (IF h \in DOMAIN o.fs[f].ents /\ \A g \in cs : Confirmed(o, g, h) THEN {} ELSE later)
TopAns(h) == IF h \in SeqOf(top) THEN {topFirst + FirstIn(top, h)} ELSE {-1}
\* the answers of the whole store: the oldest tier that finds the hash decides
RECURSIVE Deep(_, _)
Deep(t, h) == IF t > T THEN {-1}
              ELSE LET below == Deep(t + 1, h) IN {b \in below : b # -1} \cup (IF -1 \in below THEN TierAns(open[t], 1, h) ELSE {})
Answers(h) == LET d == Deep(1, h) IN {x \in d : x # -1} \cup (IF -1 \in d THEN TopAns(h) ELSE {})
Expect(h) == IF h \in SeqOf(list) THEN FirstIn(list, h) ELSE -1
GetAt(i) == IF i >= topFirst /\ i < topFirst + Len(top) THEN {top[i - topFirst + 1]}
            ELSE {open[t].file[i - open[t].base + 1] : t \in {u \in 1..T : open[u].ok /\ open[u].fs # <<>> /\ i >= open[u].base /\ i < open[u].base + Len(open[u].file)}}
Lookups == pc = "idle" => \A h \in H \cup {99} : Answers(h) = {Expect(h)}
Forward == pc = "idle" => /\ \A i \in 0..Len(list) - 1 : GetAt(i) = {list[i + 1]}
                          /\ GetAt(Len(list)) = {} /\ GetAt(-1) = {}
OpenIsDisk == pc = "idle" => \A t \in 1..T : open[t] = Image(t)
\* the tiers from the bottom up, then the top, are the list
RECURSIVE Cat(_)
Cat(t) == IF t = 0 THEN <<>> ELSE files[t] \o Cat(t - 1)
Layers == pc = "idle" => Cat(T) \o top = list /\ topFirst = Len(list) - Len(top)
NotFull == pc = "idle" => Len(top) < Cap /\ \A t \in 1..T - 1 : Len(forests[t]) < Quota[t]
Bound == Len(list) <= Max
=============================================================================
