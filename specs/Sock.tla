-------------------------------- MODULE Sock --------------------------------
(* C31.  Setting up and tearing down the descriptors of run loops, sockets,    *)
(* acceptors, datagram sockets and signals, over a kernel whose calls may      *)
(* fail.                                                                       *)
(*   fds : descriptors which are open (numbers never used again) -> record     *)
(*         k kind, nb non-blocking, o options, b bound to, c connected to,     *)
(*         lis listening, reg known to epoll, est connection established,      *)
(*         loc own address, par listener it was accepted from                  *)
(*   own : object -> its descriptor;  pend : acceptor -> accepted, not taken   *)
(*   base: what was open when the last operation ended                         *)
(*   bad : a call failed since then                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES fds, own, pend, base, bad, loop
vars == <<fds, own, pend, base, bad, loop>>
None == <<0, 0, <<>>>>
NoOpts == [sndbuf |-> 0, rcvbuf |-> 0, nodelay |-> 0, reuseaddr |-> 0, reuseport |-> 0, ttl |-> -1, mif |-> <<>>, join |-> <<>>]
New(k) == [k |-> k, fam |-> 0, nb |-> FALSE, o |-> NoOpts, b |-> None, c |-> None, lis |-> FALSE, reg |-> FALSE, est |-> FALSE, peer |-> None]
Open == DOMAIN fds
Put(u, r) == fds' = (u :> r) @@ fds
Drop(us) == [u \in Open \ us |-> fds[u]]
\* ---- calls the kernel sees
Failed == bad' = TRUE /\ UNCHANGED <<fds, own, pend, base, loop>>
SysNew(k, u, fam) == u \notin Open /\ Put(u, [New(k) EXCEPT !.fam = fam]) /\ UNCHANGED <<own, pend, base, bad, loop>>
Change(u, r) == u \in Open /\ Put(u, r) /\ UNCHANGED <<own, pend, base, bad, loop>>
SysNonblock(u, on) == Change(u, [fds[u] EXCEPT !.nb = on])
\* buffer sizes have an effect on a connection only when set before it is made
SysOpt(u, name, v) ==
  IF name \notin DOMAIN NoOpts \/ (name \in {"sndbuf", "rcvbuf"} /\ ((fds[u].c # None /\ fds[u].k = "tcp") \/ fds[u].lis)) \/ (name \in {"reuseaddr", "reuseport"} /\ fds[u].b # None)
  THEN UNCHANGED vars
  ELSE Change(u, [fds[u] EXCEPT !.o[name] = v])
SysBind(u, a)    == Change(u, [fds[u] EXCEPT !.b = a])
SysConnect(u, a) == Change(u, [fds[u] EXCEPT !.c = a])
SysListen(u)     == Change(u, [fds[u] EXCEPT !.lis = TRUE])
SysAdd(u)        == ~fds[u].reg /\ Change(u, [fds[u] EXCEPT !.reg = TRUE])
\* an accepted socket inherits the options of the listening one
SysAccept(u, l, peer) == u \notin Open /\ Put(u, [New("tcp") EXCEPT !.fam = fds[l].fam, !.o = fds[l].o, !.c = peer, !.est = TRUE]) /\ UNCHANGED <<own, pend, base, bad, loop>>
SysClose(u)      == u \in Open /\ fds' = Drop({u}) /\ UNCHANGED <<own, pend, base, bad, loop>>
Established(u)   == Change(u, [fds[u] EXCEPT !.est = TRUE])
\* ---- operations of the library, as they return
Mine(id) == IF id \in DOMAIN own THEN {own[id]} ELSE {}
Pending(id) == IF id \in DOMAIN pend THEN {pend[id]} ELSE {}
\* the old descriptors of the object are closed; exactly one new one is open if it worked and none if not
Result(id, ok, Good(_)) ==
  /\ bad' = FALSE /\ base' = Open /\ UNCHANGED <<fds, loop>>
  /\ pend' = [x \in DOMAIN pend \ {id} |-> pend[x]]
  /\ IF ok THEN \E u \in Open \ base : /\ Open = (base \ (Mine(id) \cup Pending(id))) \cup {u}
                                       /\ fds[u].nb /\ fds[u].reg
                                       /\ Good(fds[u])
                                       /\ own' = (id :> u) @@ own
     ELSE /\ bad                                     \* refuses only when a call failed
          /\ Open = base \ (Mine(id) \cup Pending(id))
          /\ own' = [x \in DOMAIN own \ {id} |-> own[x]]
\* refused although every call worked, because it is not supported
Refused(id) ==
  /\ bad' = FALSE /\ base' = Open /\ UNCHANGED <<fds, loop>>
  /\ Open = base \ (Mine(id) \cup Pending(id))
  /\ pend' = [x \in DOMAIN pend \ {id} |-> pend[x]] /\ own' = [x \in DOMAIN own \ {id} |-> own[x]]
Size(o, snd, rcv) == o.sndbuf = snd /\ o.rcvbuf = rcv
Bool(b) == IF b THEN 1 ELSE 0
IfOf(adapter) == IF adapter[1] = "name" THEN adapter[2] ELSE 0
AddrOf(adapter) == adapter[3]
Multicast(a) == (a[1] = 4 /\ a[3][1] \in 224..239) \/ (a[1] = 6 /\ a[3][1] = 255)
TcpConnect(id, a, snd, rcv, delay, ok, isopen) ==
  /\ isopen = ok
  /\ Result(id, ok, LAMBDA f : /\ f.k = "tcp" /\ f.fam = a[1] /\ f.c = a /\ ~f.lis
                               /\ Size(f.o, snd, rcv) /\ f.o.nodelay = Bool(~delay))
Acceptor(id, a, raddr, rport, delay, snd, rcv, ok) ==
  Result(id, ok, LAMBDA f : /\ f.k = "tcp" /\ f.fam = a[1] /\ f.b = a /\ f.lis
                            /\ Size(f.o, snd, rcv) /\ f.o.nodelay = Bool(~delay)
                            /\ f.o.reuseaddr = Bool(raddr) /\ f.o.reuseport = Bool(rport))
Via(v, group, adapter) == v[1] = group /\ v[3] = IfOf(adapter) /\ (adapter[1] = "name" \/ v[2] = AddrOf(adapter))
Cannot(a, adapter) == Multicast(a) /\ adapter[1] = "bad"
Unsupported(a) == Multicast(a) /\ a[1] = 6
Transmitter(id, a, adapter, ok) ==
  IF Cannot(a, adapter) \/ (Unsupported(a) /\ ~ok) THEN ~ok /\ Refused(id)
  ELSE Result(id, ok, LAMBDA f : /\ f.k = "udp" /\ f.fam = a[1] /\ f.c = a
                                 /\ ((Multicast(a) /\ a[1] = 4) => (Via(f.o.mif, <<0, 0, 0, 0>>, adapter) \/ (f.o.mif = <<>> /\ adapter[1] = "any"))))
Receiver(id, a, adapter, snd, rcv, ok) ==
  IF Cannot(a, adapter) \/ (Unsupported(a) /\ ~ok) THEN ~ok /\ Refused(id)
  ELSE Result(id, ok, LAMBDA f : /\ f.k = "udp" /\ f.fam = a[1] /\ f.b = a /\ Size(f.o, snd, rcv)
                                 /\ IF Unsupported(a) THEN f.o.join # <<>> ELSE IF Multicast(a) THEN Via(f.o.join, a[3], adapter) /\ (f.o.reuseaddr = 1 \/ f.o.reuseport = 1) ELSE f.o.join = <<>>)
Signals(id, want, ok, blocked) ==
  /\ Result(id, ok, LAMBDA f : f.k = "signalfd")
  /\ ok => (IF want = <<>> THEN {2, 15} ELSE {want[i] : i \in DOMAIN want}) \subseteq {blocked[i] : i \in DOMAIN blocked}
Unblocked(blocked) == blocked = <<>> /\ UNCHANGED vars
\* the object is gone, or about to be replaced
Gone(id) ==
  /\ bad' = FALSE /\ base' = Open /\ UNCHANGED <<fds, loop>>
  /\ Open = base \ (Mine(id) \cup Pending(id))
  /\ pend' = [x \in DOMAIN pend \ {id} |-> pend[x]] /\ own' = [x \in DOMAIN own \ {id} |-> own[x]]
TcpClose(id, isopen) == ~isopen /\ Gone(id)
Same == bad' = FALSE /\ base' = Open /\ Open = base /\ UNCHANGED <<fds, own, pend, loop>>
MulticastTtl(id, n, ok) ==
  /\ Same /\ IF ok THEN own[id] \in Open /\ fds[own[id]].o.ttl = n ELSE bad
LocalAddress(id, a)  == Same /\ (IF id \in DOMAIN own THEN fds[own[id]].c # None /\ a # None ELSE a = None)
RemoteAddress(id, a) == Same /\ a = (IF id \in DOMAIN own /\ fds[own[id]].est THEN fds[own[id]].c ELSE None)
CanAccept(id, r) ==
  /\ bad' = FALSE /\ base' = Open /\ UNCHANGED <<fds, own, loop>>
  /\ IF id \in DOMAIN pend THEN r /\ Open = base /\ UNCHANGED pend
     ELSE IF r THEN \E u \in Open \ base : Open = base \cup {u} /\ pend' = (id :> u) @@ pend
     ELSE Open = base /\ UNCHANGED pend
Accept(id, t, ok, peer, isopen) ==
  /\ bad' = FALSE /\ base' = Open /\ UNCHANGED <<fds, loop>>
  /\ IF id \in DOMAIN pend
     THEN LET u == pend[id] IN
          IF ok /\ bad THEN      \* epoll refused the descriptor: appears as connected and lost at once
                     /\ isopen /\ peer # None /\ Open = base \ (Mine(t) \cup {u})
                     /\ own' = [x \in DOMAIN own \ {t} |-> own[x]] /\ pend' = [x \in DOMAIN pend \ {id} |-> pend[x]]
          ELSE IF ok THEN /\ isopen /\ fds[u].nb /\ fds[u].reg /\ peer = fds[u].c
                     /\ Open = base \ Mine(t) /\ u \in Open
                     /\ own' = (t :> u) @@ own /\ pend' = [x \in DOMAIN pend \ {id} |-> pend[x]]
          ELSE FALSE
     ELSE ~ok /\ Open = base /\ UNCHANGED <<own, pend>>
MakeLoop(ok) ==
  /\ bad' = FALSE /\ base' = Open /\ UNCHANGED <<fds, own, pend>>
  /\ IF ok THEN loop = {} /\ loop' = Open \ base /\ loop' # {} /\ base \subseteq Open
     ELSE (bad \/ loop # {}) /\ Open = base /\ UNCHANGED loop
DropLoop == loop' = {} /\ fds = <<>> /\ Open = {} /\ base' = {} /\ own' = <<>> /\ pend' = <<>> /\ bad' = FALSE /\ UNCHANGED fds
Init == fds = <<>> /\ own = <<>> /\ pend = <<>> /\ base = {} /\ bad = FALSE /\ loop = {}
=============================================================================
