SPECIFICATION Spec
CONSTANTS
  MaxTx = 3
  MaxBlk = 2
  MaxIn = 1
  MaxOut = 2
  NA = 2
INVARIANTS Layout Reads Links Bounded
