----------------------------- MODULE BlockHolder -----------------------------
(* The holder of one block at a time: it takes blocks as they are fed, refuses*)
(* one that does not follow, and knows a block's height, the number of its    *)
(* first transaction, and its median time, of which it keeps a window of the  *)
(* latest times.                                                              *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt
CONSTANTS Width                      \* 11 in the protocol
\* the definition, over all times so far, the block's own being the last; Less is a strict order
MedianBy(ts, Less(_, _)) == LET w == IF Len(ts) > Width THEN SubSeq(ts, Len(ts) - Width + 1, Len(ts)) ELSE ts
                                s == SortSeq(w, Less)
                            IN  s[(Len(s) \div 2) + 1]
\* the window kept by the holder
Slide(win, t) == LET w == Append(win, t) IN IF Len(w) > Width THEN Tail(w) ELSE w
RECURSIVE Running(_, _)
\* number of the first transaction of block k (from 1), blocks having the numbers ns of transactions
Running(ns, k) == IF k = 1 THEN 0 ELSE Running(ns, k - 1) + ns[k - 1]
=============================================================================
