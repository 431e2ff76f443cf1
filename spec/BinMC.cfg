SPECIFICATION Spec
CONSTANTS SN = {1, 2, 3}
TH = {1, 2}
MaxLen = 5
INVARIANTS FirstGE Right
CHECK_DEADLOCK FALSE
