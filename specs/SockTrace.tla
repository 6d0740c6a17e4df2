------------------------------ MODULE SockTrace ------------------------------
EXTENDS TraceBase, Sock
Sys(c, u, a, err) ==
  IF err # 0 THEN Failed
  ELSE \/ c = "epoll"    /\ SysNew("epoll", u, 0)
       \/ c = "eventfd"  /\ SysNew("eventfd", u, 0)
       \/ c = "signalfd" /\ SysNew("signalfd", u, 0)
       \/ c = "socket"   /\ SysNew(a[1], u, a[2])
       \/ c = "nonblock" /\ SysNonblock(u, a)
       \/ c = "opt"      /\ SysOpt(u, a[1], a[2])
       \/ c = "bind"     /\ SysBind(u, a)
       \/ c = "connect"  /\ SysConnect(u, a)
       \/ c = "listen"   /\ SysListen(u)
       \/ c = "add"      /\ SysAdd(u)
       \/ c = "accept"   /\ SysAccept(u, a[1], a[2])
       \/ c = "close"    /\ SysClose(u)
Step(e) ==
  \/ e[1] = "sys"    /\ Sys(e[2], e[3], e[4], e[5])
  \/ e[1] = "loop"   /\ MakeLoop(e[2])
  \/ e[1] = "loopdel" /\ DropLoop
  \/ e[1] = "tc"     /\ TcpConnect(e[2], e[3], e[4], e[5], e[6], e[7], e[8])
  \/ e[1] = "tclose" /\ TcpClose(e[2], e[3])
  \/ e[1] = "replace" /\ Gone(e[2])
  \/ e[1] = "pok"    /\ Established(e[2])
  \/ e[1] = "loc"    /\ LocalAddress(e[2], e[3])
  \/ e[1] = "rem"    /\ RemoteAddress(e[2], e[3])
  \/ e[1] = "ac"     /\ Acceptor(e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9])
  \/ e[1] = "arrive" /\ UNCHANGED vars
  \/ e[1] = "can"    /\ CanAccept(e[2], e[3])
  \/ e[1] = "acc"    /\ Accept(e[2], e[3], e[4], e[5], e[6])
  \/ e[1] = "ut"     /\ Transmitter(e[2], e[3], e[4], e[5])
  \/ e[1] = "ttl"    /\ MulticastTtl(e[2], e[3], e[4])
  \/ e[1] = "ur"     /\ Receiver(e[2], e[3], e[4], e[5], e[6], e[7])
  \/ e[1] = "sg"     /\ Signals(e[2], e[3], e[4], e[5])
  \/ e[1] = "mask"   /\ Unblocked(e[3])
  \/ e[1] = "open"   /\ Open = {e[2][i] : i \in DOMAIN e[2]} /\ UNCHANGED vars
TInit == TraceInitBase /\ Init
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l, vars>>
=============================================================================
