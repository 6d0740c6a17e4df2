SPECIFICATION Spec
CONSTANTS Kind = "resp"
MaxLen = 8
Mode = "lf"
INVARIANT LfSame
VIEW view
CHECK_DEADLOCK FALSE
