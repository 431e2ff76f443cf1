SPECIFICATION Spec
CONSTANTS W = 2
F = 2
Top = 2
Max = 1
All = TRUE
INVARIANTS NotBefore OneAtATime
PROPERTY EveryoneGoesOn
CHECK_DEADLOCK TRUE
