SPECIFICATION Spec
CONSTANTS
  Accs = {0}
  Socks = {0, 1}
  MaxOps = 6
  MaxBlock = 3
  MaxWaits = 4
  MaxEnv = 4
  MaxHandlers = 5
  Errs = {0, 5, 7}
  Kinds = {"new", "del", "can", "acc", "bad"}
INVARIANTS Accepted OpenAgrees Rested Kept
VIEW view
CHECK_DEADLOCK FALSE
