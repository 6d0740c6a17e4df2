SPECIFICATION Spec
CONSTANTS
  Us = {0}
  SizesIn = {0, 3}
  RdN = {2}
  Space0 = 1
  MaxOps = 4
  MaxBlock = 3
  MaxWaits = 3
  MaxEnv = 3
  MaxHandlers = 4
  WithPers = FALSE
INVARIANTS Accepted WriteAgrees Rested
ACTION_CONSTRAINT Script
VIEW view
CHECK_DEADLOCK FALSE
