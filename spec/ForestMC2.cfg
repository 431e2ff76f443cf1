SPECIFICATION Spec
CONSTANTS
 A = {0, 1}
 L = 4
 P = 1
 R = 1
 Most = 5
INVARIANTS Right FindsAll NoOther Verdict
