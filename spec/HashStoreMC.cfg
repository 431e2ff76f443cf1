SPECIFICATION Spec
CONSTANTS U = 5
P = 2
CPC = 2
MaxLen = 7
INVARIANT Correct
CHECK_DEADLOCK FALSE
