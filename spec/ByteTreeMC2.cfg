SPECIFICATION Spec
CONSTANTS
 A = {0, 1}
 L = 3
 P = 0
 R = 2
 Most = 8
INVARIANTS FindsAll OnlyLookalikes LeafPerHash Right SameVerdict
