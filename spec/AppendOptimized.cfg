SPECIFICATION Spec
CONSTANTS
  BufCap = 1
  MaxLen = 4
  Vals = {1, 2}
INVARIANTS SizeOk NextOk IdleEmpty SyncedOk BufBound
PROPERTY Refines
CHECK_DEADLOCK FALSE
