SPECIFICATION Spec
CONSTANTS Kind = "frame"
MaxLen = 18
Mode = "cover"
VIEW view
ACTION_CONSTRAINT Script
CHECK_DEADLOCK FALSE
