SPECIFICATION Spec
CONSTANTS
 A = {0, 1}
 L = 3
 P = 1
 R = 1
 Most = 8
INVARIANTS Right FindsAll NoOther Verdict
