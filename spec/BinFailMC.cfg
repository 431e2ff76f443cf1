CONSTANTS U = 5
 Fit = 2
SPECIFICATION Spec
INVARIANTS Right Whole
CHECK_DEADLOCK FALSE
