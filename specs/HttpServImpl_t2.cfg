SPECIFICATION Spec
CONSTANTS
  Reqs <- R3
  Space0 = 2
  SpaceN = {3}
  OkN = {1}
  StrN <- S3
  PutN = {1}
  AgeN = {14999}
  MaxOps = 5
  MaxBlock = 2
  MaxWaits = 5
  MaxEnv = 5
  MaxHandlers = 6
  Kinds = {"ok", "str", "post", "put", "thr"}
INVARIANTS Accepted Sane
VIEW view
CHECK_DEADLOCK FALSE
