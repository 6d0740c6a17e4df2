CONSTANTS
 Chars = {9, 43, 45, 48, 49, 50, 53, 56, 58}
 MaxLen = 4
 T = "i8"
 Lo <- LoByte
 Hi = 127
 Safe = 2
SPECIFICATION Spec
ACTION_CONSTRAINTS Script
CHECK_DEADLOCK FALSE
