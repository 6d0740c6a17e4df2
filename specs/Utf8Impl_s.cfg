SPECIFICATION Spec
CONSTANTS MaxLen = 4 Bytes = {0, 127, 128, 143, 144, 159, 160, 191, 193, 194, 223, 224, 236, 237, 239, 240, 243, 244, 245, 255}
INVARIANT Agree
CONSTRAINT Interesting
ACTION_CONSTRAINT Script
CHECK_DEADLOCK FALSE
