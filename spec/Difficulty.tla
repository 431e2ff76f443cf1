----------------------------- MODULE Difficulty ------------------------------
(* The difficulty that a block's compact target stands for: the ratio of the  *)
(* first block's target to the block's own, to the nearest whole number.      *)
EXTENDS BigNat
LOCAL One == Up(<<255, 255>>, 26)                        \* 0xffff * 2^208
\* bits = <<exponent, three mantissa bytes from the most significant>>, exponent at least 3
Target(bits) == Up(<<bits[4], bits[3], bits[2]>>, bits[1] - 3)
(* d is the difficulty: 2 * d * target is within one target of 2 * One; a      *)
(* little more is allowed, as one computes with 53 bits.                      *)
IsDifficulty(d, bits) ==
  LET t == Target(bits)
      p == Times(Twice(d), t)
      slack == Plus(t, Down(One, 6))
  IN  Leq(p, Plus(Twice(One), slack)) /\ Leq(Twice(One), Plus(p, slack))
=============================================================================
