------------------------------- MODULE BigNat --------------------------------
(* Natural numbers beyond TLC's 32 bits: sequences of base-256 digits, least  *)
(* significant first.                                                         *)
EXTENDS Integers, Sequences
Dig(a, k) == IF k \in DOMAIN a THEN a[k] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y
RECURSIVE Carry(_, _, _)
\* s: sequence of digit sums, possibly 256 or more
Carry(s, k, c) == IF k > Len(s) THEN IF c = 0 THEN <<>> ELSE <<c % 256>> \o Carry(s, k, c \div 256)
                  ELSE <<(s[k] + c) % 256>> \o Carry(s, k + 1, (s[k] + c) \div 256)
Plus(a, b)  == Carry([k \in 1..Max2(Len(a), Len(b)) |-> Dig(a, k) + Dig(b, k)], 1, 0)
RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, j) == IF j > k THEN 0 ELSE Dig(a, j) * Dig(b, k - j + 1) + Conv(a, b, k, j + 1)
Times(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |-> Conv(a, b, k, 1)], 1, 0)
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, k) == IF k = 0 THEN TRUE ELSE IF Dig(a, k) # Dig(b, k) THEN Dig(a, k) < Dig(b, k) ELSE LeqFrom(a, b, k - 1)
Leq(a, b)   == LeqFrom(a, b, Max2(Len(a), Len(b)))
Twice(a)    == Plus(a, a)
\* multiplied by 256 to the power n, and divided by it
Up(a, n)    == [k \in 1..n |-> 0] \o a
Down(a, n)  == SubSeq(a, n + 1, Len(a))
=============================================================================
