SPECIFICATION Spec
CONSTANTS Kind = "req"
MaxLen = 60
Mode = "cover"
VIEW view
ACTION_CONSTRAINT Script
CHECK_DEADLOCK FALSE
