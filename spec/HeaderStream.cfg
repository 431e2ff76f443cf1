SPECIFICATION Spec
CONSTANTS
  W = 4
  MaxLen = 11
  MaxN = 12
INVARIANTS InOrder Complete Short
PROPERTY Ends
CHECK_DEADLOCK FALSE
