SPECIFICATION Spec
CONSTANTS MaxCap = 4 MaxLen = 9
INVARIANT Inv
PROPERTY Refines
ACTION_CONSTRAINT Script
VIEW view
CHECK_DEADLOCK FALSE
