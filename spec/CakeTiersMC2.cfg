SPECIFICATION Spec
CONSTANTS
 H = {1, 2}
 Cap = 2
 Quota <- Q2
 Max = 11
 Verify = TRUE
INVARIANTS Lookups Forward OpenIsDisk Layers NotFull
CHECK_DEADLOCK FALSE
