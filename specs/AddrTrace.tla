------------------------------ MODULE AddrTrace ------------------------------
(* An address object: parsing sets it, or refuses and leaves it as it was.      *)
EXTENDS TraceBase, Addr
VARIABLES ip, port
New == ip' = <<>> /\ port' = 0
Set(can, a, p, e) ==
  /\ e[4] = can
  /\ ip' = (IF can THEN a ELSE ip) /\ port' = (IF can THEN p ELSE port)
Step(e) ==
  \/ e[1] = "new"   /\ New
  \* parse(address, ip, port) and Address(ip, port)
  \/ e[1] = "ip"    /\ Set(IsIp(e[2]), IF e[4] THEN Ip(e[2]) ELSE <<>>, e[3], e)
  \/ e[1] = "both"  /\ Set(IsIpPort(e[2]), IF e[4] THEN Ip(Host(e[2])) ELSE <<>>, IF e[4] THEN Port(e[2]) ELSE 0, e)
  \/ e[1] = "tells" /\ (IF ip = <<>> THEN e[3] = 0 /\ ~e[5] /\ ~e[6] /\ e[7] = <<0, 0, 0, 0>> ELSE Tells(ip, port, Tail(e)))
                    /\ UNCHANGED <<ip, port>>
TInit == TraceInitBase /\ ip = <<>> /\ port = 0
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l, ip, port>>
=============================================================================
