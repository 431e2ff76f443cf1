SPECIFICATION Spec
CONSTANTS
  MaxTxs = 1
  MaxIns = 2
  MaxOuts = 2
  Lens = {2, 253}
  MaxParses = 1
INVARIANTS Roundtrip Truncated NoPrefix
CHECK_DEADLOCK FALSE
