SPECIFICATION Spec
CONSTANTS
  Reqs <- R2
  Space0 = 3
  SpaceN = {3}
  OkN = {1}
  StrN <- S2
  PutN = {1}
  AgeN = {14999}
  MaxOps = 5
  MaxBlock = 2
  MaxWaits = 5
  MaxEnv = 6
  MaxHandlers = 6
  Kinds = {"ok", "str", "post", "put", "thr"}
INVARIANTS Accepted Sane
VIEW view
CHECK_DEADLOCK FALSE
