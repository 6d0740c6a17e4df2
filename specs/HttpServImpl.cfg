SPECIFICATION Spec
CONSTANTS
  Reqs <- R1
  Space0 = 2
  SpaceN = {3}
  OkN = {1}
  StrN <- S1
  PutN = {1}
  AgeN = {14999}
  MaxOps = 4
  MaxBlock = 2
  MaxWaits = 4
  MaxEnv = 5
  MaxHandlers = 5
  Kinds = {"ok", "str", "post", "put", "thr"}
INVARIANTS Accepted Sane
VIEW view
CHECK_DEADLOCK FALSE
