SPECIFICATION Spec
CONSTANTS Which = {1, 2, 3, 4, 5, 6}
INVARIANTS NotBad NoLostWakeup NoDeadlock
VIEW view
CHECK_DEADLOCK FALSE
