SPECIFICATION Spec
CONSTANTS
  Conns = 1
  PutN = {3}
  Hows = {"w", "W", "b"}
  PeerN = {1}
  SpaceN = {2}
  Space0 = 2
  AgeN = {14999}
  Linger = 15000
  MaxOps = 3
  MaxBlock = 2
  MaxWaits = 3
  MaxEnv = 3
  MaxHandlers = 4
  Kinds = {"conn", "close", "rd", "put", "some", "sd", "del"}
INVARIANTS Accepted Agrees Ordered Rested
VIEW view
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Script
