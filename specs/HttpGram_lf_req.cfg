SPECIFICATION Spec
CONSTANTS Kind = "req"
MaxLen = 8
Mode = "lf"
INVARIANT LfSame
VIEW view
CHECK_DEADLOCK FALSE
