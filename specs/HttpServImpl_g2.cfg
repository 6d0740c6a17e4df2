SPECIFICATION Spec
CONSTANTS
  Reqs <- R2
  Space0 = 2
  SpaceN = {3}
  OkN = {1}
  StrN <- S2
  PutN = {1}
  AgeN = {14999}
  MaxOps = 3
  MaxBlock = 2
  MaxWaits = 3
  MaxEnv = 4
  MaxHandlers = 4
  Kinds = {"ok", "str", "post", "put", "thr"}
INVARIANTS Accepted Sane
VIEW view
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Script
