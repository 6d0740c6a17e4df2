SPECIFICATION Spec
CONSTANTS
  HasS = FALSE
  HasU = TRUE
  Sigs = {0, 1}
  Watchers = {3}
  HasT = TRUE
  MaxOps = 4
  MaxBlock = 3
  MaxWaits = 2
  MaxEnv = 3
  MaxHandlers = 4
INVARIANTS Accepted Rested OnlyLiving FiredLiving
ACTION_CONSTRAINT Script
VIEW view
CHECK_DEADLOCK FALSE
