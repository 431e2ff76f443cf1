SPECIFICATION Spec
CHECK_DEADLOCK TRUE
ALIAS Pos
