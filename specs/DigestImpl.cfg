SPECIFICATION Spec
CONSTANTS B = 64 LEN = 8 MaxPiece = 130 MaxTotal = 200
INVARIANTS Right Prefix
ACTION_CONSTRAINT Script
VIEW view
CHECK_DEADLOCK FALSE
