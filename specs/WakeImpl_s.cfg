SPECIFICATION Spec
CONSTANTS Which = {1, 2, 3, 4, 5, 6}
VIEW view
ACTION_CONSTRAINT Script
CHECK_DEADLOCK FALSE
