SPECIFICATION Spec
CONSTANTS
 H = {1, 2, 3}
 Cap = 2
 Quota <- Q1
 Max = 9
 Verify = TRUE
INVARIANTS Lookups Forward OpenIsDisk Layers NotFull
CHECK_DEADLOCK FALSE
