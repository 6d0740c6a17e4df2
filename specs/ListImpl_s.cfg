CONSTANT N = 3
SPECIFICATION Spec
ACTION_CONSTRAINTS Script
VIEW view
CHECK_DEADLOCK FALSE
