SPECIFICATION Spec
CONSTANTS MaxCap = 9 MaxLen = 30
INVARIANT Inv
PROPERTY Refines
ACTION_CONSTRAINT Script
VIEW view
CHECK_DEADLOCK FALSE
