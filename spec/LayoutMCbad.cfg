SPECIFICATION Spec
CONSTANTS
 Trees = 2
 Most = 2
 Counts = {0, 2, 3}
 Groups = 3
 PerGroup = FALSE
INVARIANTS Extract Distinct Full
