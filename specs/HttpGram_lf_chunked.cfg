SPECIFICATION Spec
CONSTANTS Kind = "chunked"
MaxLen = 7
Mode = "lf"
INVARIANT LfSame
VIEW view
CHECK_DEADLOCK FALSE
