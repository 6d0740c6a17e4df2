SPECIFICATION Spec
CONSTANTS Kind = "resp"
MaxLen = 60
Mode = "cover"
VIEW view
ACTION_CONSTRAINT Script
CHECK_DEADLOCK FALSE
