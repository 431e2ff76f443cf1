CONSTANTS U = 4  BINS = 2  CAP = 1  MaxLen = 4
SPECIFICATION Spec
INVARIANT Right
