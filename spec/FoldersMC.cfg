SPECIFICATION Spec
CONSTANTS Max = 120
INVARIANT OneToOne
CHECK_DEADLOCK FALSE
