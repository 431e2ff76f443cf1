SPECIFICATION Spec
CONSTANTS
 Trees = 3
 Most = 2
 Counts = {0, 2, 3}
 Groups = 2
 PerGroup = TRUE
INVARIANTS Extract Distinct Full
