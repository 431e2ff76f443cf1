SPECIFICATION Spec
CONSTANTS
  Width = 3
  T = {0, 1, 2}
  MaxFed = 6
  MaxTx = 2
INVARIANTS Right Middle Honest
CHECK_DEADLOCK FALSE
