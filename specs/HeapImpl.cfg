CONSTANTS
 N = 7
 Keys <- KeysL
SPECIFICATION Spec
INVARIANTS Exact Ordered Front
VIEW view
CHECK_DEADLOCK FALSE
