CONSTANTS
 Chars = {32, 43, 45, 48, 49, 50, 53, 55, 56, 57, 97}
 MaxLen = 4
 T = "i8"
 Lo <- LoByte
 Hi = 127
 Safe = 2
SPECIFICATION Spec
INVARIANTS InRange Right
CHECK_DEADLOCK FALSE
