SPECIFICATION Spec
CONSTANTS Which = {1, 2, 3, 4, 5, 6, 7, 8, 9}
INVARIANTS NotBad NoDeadlock Owned UsesLiving
VIEW view
CHECK_DEADLOCK FALSE
