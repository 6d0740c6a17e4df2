SPECIFICATION ISpec
INVARIANT Tidy
CONSTANTS
MaxOps = 3
MaxFaults = 2
Ids = {1, 2}
Emit = FALSE
