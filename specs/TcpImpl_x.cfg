SPECIFICATION Spec
CONSTANTS
  Socks = {0, 1}
  Conns = 2
  RdN = {1}
  WrN = {3}
  PeerN = {1}
  SpaceN = {2}
  Space0 = 2
  MaxOps = 4
  MaxBlock = 2
  MaxWaits = 2
  MaxEnv = 2
  MaxHandlers = 4
  Kinds = {"conn", "wr", "wsh"}
INVARIANTS Accepted OpenAgrees Rested
VIEW view
CHECK_DEADLOCK FALSE
