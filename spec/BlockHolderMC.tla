---------------------------- MODULE BlockHolderMC ----------------------------
(* Exhaustive check of the holder on all short feeds: times from a few values,*)
(* links right or wrong, any numbers of transactions.                         *)
EXTENDS BlockHolder
CONSTANTS T, MaxFed, MaxTx
VARIABLES fed, held, win, median, height, first, count, refused
vars == <<fed, held, win, median, height, first, count, refused>>
\* block k of the honest chain has hash k; a wrong link is 0
Lt(a, b) == a < b
Init == fed = <<>> /\ held = -1 /\ win = <<>> /\ median = 0 /\ height = -1 /\ first = -1 /\ count = 0 /\ refused = FALSE
Feed == /\ ~refused /\ Len(fed) < MaxFed
        /\ \E t \in T, n \in 1..MaxTx, ok \in BOOLEAN :
             LET k == Len(fed) + 1
                 b == [hash |-> IF ok \/ k > 1 THEN k ELSE 99, prev |-> IF ok THEN k - 1 ELSE 98, time |-> t, n |-> n]
             IN  /\ fed' = Append(fed, b)
                 /\ IF (k = 1 /\ b.hash = 1) \/ (k > 1 /\ b.prev = held)
                    THEN /\ held' = b.hash /\ win' = Slide(win, t) /\ median' = LET s == Slide(win, t) IN MedianBy(s, Lt)
                         /\ height' = height + 1 /\ first' = count /\ count' = count + n /\ UNCHANGED refused
                    ELSE refused' = TRUE /\ UNCHANGED <<held, win, median, height, first, count>>
Next == Feed
Spec == Init /\ [][Next]_vars
Times == [k \in DOMAIN fed |-> fed[k].time]
Ns == [k \in DOMAIN fed |-> fed[k].n]
Right == fed # <<>> /\ ~refused => /\ median = MedianBy(Times, Lt) /\ height = Len(fed) - 1 /\ first = Running(Ns, Len(fed))
                                   /\ \E w \in 0..Width : Len(win) = w /\ win = SubSeq(Times, Len(fed) - w + 1, Len(fed))
\* as many of the latest times are not above the median as are not below it, give or take one
Middle == fed # <<>> /\ ~refused => LET lo == {k \in DOMAIN win : win[k] < median}
                                        hi == {k \in DOMAIN win : win[k] > median}
                                        Card(S) == Len(SelectSeq([j \in DOMAIN win |-> j], LAMBDA j : j \in S))
                                    IN  2 * Card(lo) <= Len(win) /\ 2 * Card(hi) < Len(win) + 1
Honest == refused <=> \E k \in DOMAIN fed : IF k = 1 THEN fed[k].hash # 1 ELSE fed[k].prev # fed[k - 1].hash
=============================================================================
