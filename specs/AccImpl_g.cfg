SPECIFICATION Spec
CONSTANTS
  Accs = {0}
  Socks = {0}
  MaxOps = 4
  MaxBlock = 3
  MaxWaits = 3
  MaxEnv = 3
  MaxHandlers = 5
  Errs = {0, 5, 7}
  Kinds = {"new", "del", "can", "acc", "bad"}
INVARIANTS Accepted OpenAgrees Rested Kept
ACTION_CONSTRAINT Script
VIEW view
CHECK_DEADLOCK FALSE
