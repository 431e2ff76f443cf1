SPECIFICATION Spec
CONSTANTS
  MaxTxs = 2
  MaxIns = 1
  MaxOuts = 1
  Lens = {1}
  MaxParses = 2
INVARIANTS Roundtrip Truncated
CHECK_DEADLOCK FALSE
