------------------------------ MODULE StreamGen ------------------------------
(* Scenarios for header streaming: chain lengths and numbers asked for about  *)
(* the boundaries of the windows, growth of the chain, failing requests.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES sc, done
vars == <<sc, done>>
W == 1002
Top == atoi(IOEnv.GEN_TOP)            \* windows at most
RE(S) == RandomElement(S)
Edge(d) == LET w == RE(0..Top) * (W - 2) IN w + RE({-2, -1, 0, 1, 2, 3, 4, RE(0..999)})
Clip(x) == IF x < 1 THEN 1 - x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
NReq(len) == len \div (W - 2) + 1
One(d) == \E len \in {Clip(Edge(d))}, q \in {RE(1..4)}, r \in {RE(0..3)} :
            \E n \in {CASE q = 1 -> len [] q = 2 -> RE(0..len) [] q = 3 -> Min2(len, Clip(Edge(d) - 1)) [] OTHER -> Clip(Edge(d) - 1)} :
              \E at \in {RE(0..NReq(len) - 1)} :
                sc' = Append(sc, [len |-> len, n |-> n, grow |-> IF r = 1 THEN at ELSE -1, more |-> IF r = 1 THEN RE({1, 2, 3, 500, 999, 1000, 1001, 1002}) ELSE 0,
                                  failat |-> IF r = 2 THEN at ELSE -1, fail |-> RE({"err", "500", "cut", "close"})])
Init == sc = <<>> /\ done = FALSE
Add == Len(sc) < 12 /\ One(Len(sc)) /\ UNCHANGED done
Finish == Len(sc) = 12 /\ done' = TRUE /\ PrintT("GEN " \o ToJson(sc)) /\ UNCHANGED sc
Next == ~done /\ (Add \/ Finish)
Spec == Init /\ [][Next]_vars
=============================================================================
