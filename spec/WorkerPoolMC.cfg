SPECIFICATION Spec
CONSTANTS T = 4
W = 2
INVARIANTS AtMostW Accepted
PROPERTY AllDone
CHECK_DEADLOCK TRUE
