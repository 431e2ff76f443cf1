SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Vals = {0, 1}
INVARIANTS LogicalOk CrashOk SyncedLives
CHECK_DEADLOCK FALSE
