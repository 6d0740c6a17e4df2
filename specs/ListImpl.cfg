CONSTANT N = 4
SPECIFICATION Spec
INVARIANTS Right Once
VIEW view
CHECK_DEADLOCK FALSE
