SPECIFICATION Spec
CONSTANTS
  Conns = 2
  PutN = {3}
  Hows = {"w", "b"}
  PeerN = {1}
  SpaceN = {2}
  Space0 = 2
  AgeN = {14999}
  Linger = 15000
  MaxOps = 4
  MaxBlock = 2
  MaxWaits = 3
  MaxEnv = 3
  MaxHandlers = 4
  Kinds = {"conn", "close", "rd", "put", "some", "sd", "del"}
INVARIANTS Accepted Agrees Ordered Rested
VIEW view
CHECK_DEADLOCK FALSE
