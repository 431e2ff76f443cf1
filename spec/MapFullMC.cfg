SPECIFICATION Spec
CONSTANTS
  Keys = {0, 1, 2, 4, 6}
  KeysPerBucket = 2
  MaxOps = 5
INVARIANTS LogicalOk CrashOk NeverStuck Distinct
CHECK_DEADLOCK FALSE
