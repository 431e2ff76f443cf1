----------------------------- MODULE UniformMC -------------------------------
(* The uniform index: multipass preloading into bins of CAP slots plus an     *)
(* overflow list.  Exhaustive over every list of up to MaxLen hashes from U,  *)
(* and every number of bins per pass: each bin is filled by exactly one pass, *)
(* repeated hashes are dropped, a look-up reads back through the hash list.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS U, BINS, CAP, MaxLen
VARIABLES list, per, pass, pos, starts, ovf
vars == <<list, per, pass, pos, starts, ovf>>
Bin(h) == h % BINS
H == INSTANCE HashIndex WITH hs <- list
Init == /\ list \in UNION {[1..n -> 1..U] : n \in 0..MaxLen}
        /\ per \in 1..BINS + 1 /\ pass = 0 /\ pos = 1
        /\ starts = [b \in 0..BINS - 1 |-> <<>>] /\ ovf = [b \in 0..BINS - 1 |-> <<>>]
Passes == 1 + BINS \div per
Mine(b) == b >= pass * per /\ b < (IF pass * per + per > BINS THEN BINS ELSE pass * per + per)
HasHash(s, h) == \E k \in 1..Len(s) : list[s[k] + 1] = h
Read == /\ pass < Passes /\ pos <= Len(list)
        /\ pos' = pos + 1
        /\ LET h == list[pos]
               b == Bin(h)
           IN IF ~Mine(b) \/ HasHash(starts[b], h) \/ HasHash(ovf[b], h) THEN UNCHANGED <<starts, ovf>>
              ELSE IF Len(starts[b]) < CAP THEN starts' = [starts EXCEPT ![b] = Append(@, pos - 1)] /\ UNCHANGED ovf
              ELSE ovf' = [ovf EXCEPT ![b] = Append(@, pos - 1)] /\ UNCHANGED starts
        /\ UNCHANGED <<list, per, pass>>
NextPass == pass < Passes /\ pos > Len(list) /\ pos' = 1 /\ pass' = pass + 1 /\ UNCHANGED <<list, per, starts, ovf>>
Done == pass = Passes /\ UNCHANGED vars
Next == Read \/ NextPass \/ Done
Spec == Init /\ [][Next]_vars
Answer(h) == LET s == starts[Bin(h)] \o ovf[Bin(h)]
                 M == {k \in 1..Len(s) : list[s[k] + 1] = h}
             IN IF M = {} THEN -1 ELSE s[CHOOSE k \in M : \A j \in M : k <= j]
Right == pass = Passes => \A h \in 1..U : H!IsIndexOf(h, Answer(h))
=============================================================================
