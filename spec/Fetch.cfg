SPECIFICATION Spec
CONSTANTS
  N = 4
  T = 3
INVARIANTS Once Whole All
PROPERTY Done
CHECK_DEADLOCK FALSE
