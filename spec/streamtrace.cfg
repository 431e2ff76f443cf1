SPECIFICATION Spec
CHECK_DEADLOCK TRUE
VIEW View
ALIAS Pos
