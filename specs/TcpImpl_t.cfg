SPECIFICATION Spec
CONSTANTS
  Socks = {0}
  Conns = 2
  RdN = {1}
  WrN = {3}
  PeerN = {1}
  SpaceN = {2}
  Space0 = 2
  MaxOps = 5
  MaxBlock = 2
  MaxWaits = 4
  MaxEnv = 4
  MaxHandlers = 5
  Kinds = {"conn", "close", "rd", "wr", "wsh", "del"}
INVARIANTS Accepted OpenAgrees Rested
VIEW view
CHECK_DEADLOCK FALSE
