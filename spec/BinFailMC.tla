------------------------------ MODULE BinFailMC ------------------------------
(* A bin of the pre-built index on a disk where any operation may fail: the    *)
(* start of the bin (of Fit entries) in one file, the rest in an overflow file *)
(* which is only there if it is needed.  A lookup is right or reports that it  *)
(* failed; a file that could not be opened is not one that is not there.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS U, Fit
VARIABLES list,   \* the hashes in the order of their positions
          start, over, there, ask, ans
vars == <<list, start, over, there, ask, ans>>
Hashes == 1..U
None == "none"
Failed == "failed"
In(h) == \E k \in 1..Len(list) : list[k] = h
Init == list = <<>> /\ start = {} /\ over = {} /\ there = FALSE /\ ask = 0 /\ ans = None
\* an index is built anew over a list; an entry is a hash's place in the bin
Insert(h) == /\ ~In(h) /\ ans # Failed
             /\ \/ Cardinality(start) < Fit /\ start' = start \cup {h} /\ UNCHANGED <<over, there>>
                \/ Cardinality(start) = Fit /\ over' = over \cup {h} /\ there' = TRUE /\ UNCHANGED start
             /\ list' = Append(list, h) /\ ask' = 0 /\ ans' = None
Answer(h, a) == ask' = h /\ ans' = a /\ UNCHANGED <<list, start, over, there>>
StartUnread(h) == Answer(h, Failed)
StartHas(h) == h \in start /\ Answer(h, "found")
NotFull(h) == h \notin start /\ Cardinality(start) < Fit /\ Answer(h, "absent")
NotThere(h) == h \notin start /\ Cardinality(start) = Fit /\ ~there /\ Answer(h, "absent")
OverUnread(h) == h \notin start /\ there /\ Answer(h, Failed)
OverAsked(h) == h \notin start /\ there /\ Answer(h, IF h \in over THEN "found" ELSE "absent")
Next == \E h \in Hashes : \/ Insert(h) \/ StartUnread(h) \/ StartHas(h) \/ NotFull(h)
                          \/ NotThere(h) \/ OverUnread(h) \/ OverAsked(h)
Again == ans = Failed /\ ask' = 0 /\ ans' = None /\ UNCHANGED <<list, start, over, there>>
Spec == Init /\ [][Next \/ Again]_vars
Right == ask # 0 => ans \in {Failed, IF In(ask) THEN "found" ELSE "absent"}
Whole == start \cup over = {list[k] : k \in 1..Len(list)} /\ (there <=> over # {})
=============================================================================
