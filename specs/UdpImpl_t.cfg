SPECIFICATION Spec
CONSTANTS
  Us = {0, 1}
  SizesIn = {0, 3}
  RdN = {2}
  Space0 = 1
  MaxOps = 5
  MaxBlock = 3
  MaxWaits = 3
  MaxEnv = 3
  MaxHandlers = 4
  WithPers = TRUE
INVARIANTS Accepted WriteAgrees Rested
VIEW view
CHECK_DEADLOCK FALSE
