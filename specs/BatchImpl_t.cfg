SPECIFICATION Spec
CONSTANTS
  HasS = TRUE
  HasU = TRUE
  Sigs = {0, 1}
  Watchers = {3, 4}
  HasT = TRUE
  MaxOps = 6
  MaxBlock = 3
  MaxWaits = 2
  MaxEnv = 3
  MaxHandlers = 4
INVARIANTS Accepted Rested OnlyLiving FiredLiving
VIEW view
CHECK_DEADLOCK FALSE
