SPECIFICATION Spec
CONSTANTS
  HasS = TRUE
  HasU = TRUE
  Sigs = {}
  Watchers = {3, 4}
  HasT = FALSE
  MaxOps = 4
  MaxBlock = 3
  MaxWaits = 2
  MaxEnv = 3
  MaxHandlers = 4
INVARIANTS Accepted Rested OnlyLiving FiredLiving
ACTION_CONSTRAINT Script
VIEW view
CHECK_DEADLOCK FALSE
