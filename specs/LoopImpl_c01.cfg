SPECIFICATION Spec
CONSTANTS
  Timers = {0, 1}
  Watchers = {}
  Idles = {}
  Delays = {0, 1, 5}
  Advances = {0, 3}
  MaxOps = 4
  MaxWaits = 3
  MaxSigs = 1
  WithSlow = FALSE
ACTION_CONSTRAINT Script
VIEW view
CHECK_DEADLOCK FALSE
