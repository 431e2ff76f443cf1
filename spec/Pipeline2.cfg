SPECIFICATION Spec
CONSTANTS N = 12
W = 4
Limit = 2
INVARIANTS Order GateExact Bound Complete
PROPERTY Delivered
CHECK_DEADLOCK TRUE
