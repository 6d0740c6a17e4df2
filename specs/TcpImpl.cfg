SPECIFICATION Spec
CONSTANTS
  Socks = {0}
  Conns = 2
  RdN = {1}
  WrN = {3}
  PeerN = {1}
  SpaceN = {2}
  Space0 = 2
  MaxOps = 4
  MaxBlock = 2
  MaxWaits = 3
  MaxEnv = 3
  MaxHandlers = 4
  Kinds = {"conn", "close", "rd", "wr", "wsh", "del"}
INVARIANTS Accepted OpenAgrees Rested
VIEW view
CHECK_DEADLOCK FALSE
