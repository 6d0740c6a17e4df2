CONSTANTS
 N = 5
 Keys <- KeysS
SPECIFICATION Spec
ACTION_CONSTRAINTS Script
VIEW view
CHECK_DEADLOCK FALSE
