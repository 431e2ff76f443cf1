SPECIFICATION Spec
CONSTANTS W = 3
F = 2
Top = 3
Max = 2
All = TRUE
INVARIANTS NotBefore OneAtATime
PROPERTY EveryoneGoesOn
CHECK_DEADLOCK TRUE
