SPECIFICATION Spec
CONSTANTS
  Timers = {0, 1}
  Watchers = {10}
  Idles = {20, 21}
  Delays = {0, 1, 5}
  Advances = {0, 3}
  MaxOps = 4
  MaxWaits = 3
  MaxSigs = 2
  WithSlow = FALSE
INVARIANTS Inv Remembered WakePending
PROPERTY Refines
VIEW view
CHECK_DEADLOCK FALSE
