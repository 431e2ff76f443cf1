SPECIFICATION Spec
CONSTANTS N = 9
W = 4
Limit = 1
INVARIANTS Order GateExact Bound Complete
PROPERTY Delivered
CHECK_DEADLOCK TRUE
