SPECIFICATION Spec
CONSTANTS
  Conns = 2
  PutN = {1, 3}
  Hows = {"w", "W", "b"}
  PeerN = {1}
  SpaceN = {2}
  Space0 = 2
  AgeN = {14999}
  Linger = 15000
  MaxOps = 5
  MaxBlock = 2
  MaxWaits = 4
  MaxEnv = 4
  MaxHandlers = 5
  Kinds = {"conn", "close", "rd", "put", "some", "sd", "del"}
INVARIANTS Accepted Agrees Ordered Rested
VIEW view
CHECK_DEADLOCK FALSE
