SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Vals = {0, 1}
INVARIANTS LogicalOk CrashOk TotalOk
CHECK_DEADLOCK FALSE
