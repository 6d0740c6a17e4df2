SPECIFICATION Spec
CONSTANTS
  Timers = {0}
  Watchers = {10}
  Idles = {20, 21, 22}
  Delays = {0, 5}
  Advances = {0}
  MaxOps = 4
  MaxWaits = 4
  MaxSigs = 1
  WithSlow = FALSE
ACTION_CONSTRAINT Script
VIEW view
CHECK_DEADLOCK FALSE
