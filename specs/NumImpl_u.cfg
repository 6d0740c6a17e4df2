CONSTANTS
 Chars = {32, 43, 45, 48, 49, 50, 53, 55, 56, 57, 97}
 MaxLen = 4
 T = "u8"
 Lo = 0
 Hi = 255
 Safe = 2
SPECIFICATION Spec
INVARIANTS InRange Right
CHECK_DEADLOCK FALSE
