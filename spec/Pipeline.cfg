SPECIFICATION Spec
CONSTANTS N = 7
W = 3
Limit = 2
INVARIANTS Order GateExact Bound Complete
PROPERTY Delivered
CHECK_DEADLOCK TRUE
