SPECIFICATION ISpec
INVARIANT Tidy
CONSTANTS
MaxOps = 2
MaxFaults = 2
Ids = {1, 2}
Emit = TRUE
