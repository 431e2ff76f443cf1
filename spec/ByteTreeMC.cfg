SPECIFICATION Spec
CONSTANTS
 A = {0, 1, 2}
 L = 2
 P = 0
 R = 1
 Most = 9
INVARIANTS FindsAll OnlyLookalikes LeafPerHash Right
