------------------------------- MODULE HttpCli -------------------------------
(* Contract of http::ClientConnection (C15) and the client side of web sockets *)
(* (C13, C14), seen from the server, the name service and the application.      *)
EXTENDS WebSock, TLC
CONSTANT LINGER
VARIABLE x
(* phase: closed; conn0 (inside connect); dns (name being resolved); wait (no   *)
(* request outstanding); await (response due); up (upgrade due); ws.            *)
(* sk: none, old (of an earlier connection), pend (connecting), up, closed;     *)
(* in/beg: what the server sent completely / the kind of what it is sending;    *)
(* out: requests not yet on the wire; off: available data was offered by a      *)
(* handler call; more: the application has not read until there was nothing.    *)
Zero == [phase |-> "closed", host |-> "", port |-> 0, addr |-> 0, lk |-> -1, ans |-> -1, want |-> <<>>, s |-> -1, sk |-> "none", roomy |-> FALSE,
         gone |-> "", in |-> <<>>, beg |-> "", out |-> <<>>, fin |-> FALSE, finAt |-> 0, off |-> FALSE, more |-> FALSE, maybe |-> FALSE,
         nosock |-> FALSE, flt |-> FALSE, w |-> WNone, try |-> <<>>]
Init == x = Zero
Direct == 167772169    \* 10.0.0.9
Open == x.phase # "closed"
Old == IF x.sk \in {"pend", "up"} THEN "old" ELSE IF x.sk = "old" THEN "old" ELSE "none"
Closed == [Zero EXCEPT !.sk = Old, !.s = x.s, !.flt = x.flt]
Malformed(y) == LET k == IF y.in # <<>> THEN Head(y.in)[1] ELSE y.beg IN
                \/ y.phase = "await" /\ k \in {"mal", "fr"}
                \/ y.phase = "await" /\ y.in # <<>> /\ k \in {"up", "upb"}
                \/ y.phase = "up" /\ k \in {"mal", "fr", "rs", "upb"}
                \/ y.phase = "ws" /\ y.beg \in {"mal", "rs", "up", "upb"}
Sure(y) == LET k == IF y.in # <<>> THEN Head(y.in)[1] ELSE "" IN        \* certainly not what was asked for
           \/ y.phase = "await" /\ k \in {"mal", "fr", "up", "upb"}
           \/ y.phase = "up" /\ k \in {"mal", "fr", "rs", "upb"}
Feed(w, it) == IF it[1] = "fr" THEN Recv(w, it[2], it[3], it[4]) ELSE RecvBad(w)
RECURSIVE Absorb(_)
Absorb(y) == IF y.in = <<>> \/ y.sk = "closed" THEN y
             ELSE IF y.phase = "up" /\ Head(y.in)[1] = "up" /\ y.out = <<>> THEN Absorb([y EXCEPT !.phase = "ws", !.in = Tail(@)])
             ELSE IF y.phase = "ws" THEN Absorb([y EXCEPT !.w = Feed(y.w, Head(y.in)), !.in = Tail(@)])
             ELSE y
Put(y) == x' = Absorb(y)
Avail == \/ x.phase = "await" /\ x.in # <<>> /\ Head(x.in)[1] = "rs" /\ x.out = <<>>
         \/ x.phase = "ws" /\ x.w.dl # <<>>
Unsent == x.out # <<>> \/ (x.phase \in {"up", "ws"} /\ (x.w.out # <<>> \/ x.w.pongs # <<>>))
\* connecting
Conn(port) == Put([Closed EXCEPT !.phase = "conn0", !.host = "10.0.0.9", !.port = port])
ConnH(host, port) == Put([Closed EXCEPT !.phase = "dns", !.host = host, !.port = port])
ConnR(ok, open) ==
  /\ open = ok
  /\ IF x.phase = "dns" THEN ok /\ UNCHANGED x
     ELSE /\ x.phase = "conn0"
          /\ ok => x.sk \in {"pend", "up"}
          /\ ~ok => (x.nosock \/ x.flt)
          /\ Put(IF ok THEN [x EXCEPT !.phase = "wait"] ELSE [Closed EXCEPT !.flt = FALSE])
BadConn(th, open) ==      \* not a protocol: what was there goes on, or is closed
  /\ th
  /\ \/ open = Open /\ UNCHANGED x
     \/ ~open /\ Put(Closed)
Fault == Put([x EXCEPT !.flt = TRUE])
DnsQ(id, host, port, fam) ==
  IF x.phase = "dns" /\ x.lk = -1 /\ host = x.host /\ port = x.port /\ fam = 4 THEN Put([x EXCEPT !.lk = id]) ELSE UNCHANGED x
Dns(id, n) == IF x.phase = "dns" /\ x.lk = id THEN Put([x EXCEPT !.ans = n]) ELSE UNCHANGED x
Sock(s, addr, port, res) ==
  LET y == [x EXCEPT !.s = s, !.sk = IF res = 1 THEN "up" ELSE IF res = 0 THEN "pend" ELSE "old", !.nosock = (res = 2)] IN
  /\ x.sk = "none" /\ port = x.port
  /\ IF x.phase = "conn0" THEN addr = Direct /\ Put(y)
     ELSE /\ x.phase = "dns" /\ x.lk >= 0 /\ x.ans > 0
          /\ addr \in {167837696 + x.lk * 256 + i : i \in 0..(x.ans - 1)}
          /\ Put(IF res = 2 THEN y
                 ELSE IF x.want = <<>> THEN [y EXCEPT !.phase = "wait"]
                 ELSE [y EXCEPT !.phase = IF x.want[1] = "rq" THEN "await" ELSE "up", !.out = <<x.want>>, !.want = <<>>])
COk   == x.sk = "pend" /\ Put([x EXCEPT !.sk = "up"])
CFail == x.sk = "pend" /\ Put([x EXCEPT !.sk = "up", !.gone = "err"])
Os(open, roomy, now) ==
  IF x.sk = "old" THEN ~open /\ Put([x EXCEPT !.sk = "none"])
  ELSE /\ x.sk \in {"pend", "up"}
       /\ ~open => (\/ x.gone # "" \/ x.flt \/ x.maybe \/ (x.fin /\ now >= x.finAt + LINGER)
                    \/ x.phase = "wait" /\ (x.in # <<>> \/ x.beg # ""))
       /\ Put([x EXCEPT !.roomy = roomy, !.sk = IF open THEN @ ELSE "closed"])
\* the server
Begin(kind) == Put([x EXCEPT !.beg = kind])
Item(it)    == Put([x EXCEPT !.in = Append(@, it), !.beg = ""])
Eof         == Put([x EXCEPT !.gone = "eof"])
Error       == Put([x EXCEPT !.gone = "err"])
\* the application
Close(open) == ~open /\ Put(Closed)
Try(t) == Put([x EXCEPT !.try = t,
                        !.w = IF t[1] = "ws" /\ x.phase \in {"up", "ws"} THEN Send(@, t[2], t[3], t[4], t[5]) ELSE @])
TryR(th) ==
  LET t == x.try
      y == [x EXCEPT !.try = <<>>]
      web == t[1] = "ws"
  IN IF ~Open THEN ~th /\ Put(y)
     ELSE IF web THEN /\ th = (x.phase \notin {"up", "ws"})
                      /\ Put(y)
     ELSE /\ th = (x.phase \in {"await", "up", "ws"} \/ x.want # <<>>)
          /\ Put(IF th THEN y
                 ELSE LET z == [y EXCEPT !.w = WNew(0, 0), !.maybe = (x.in # <<>> \/ x.beg # "")] IN
                      IF x.phase = "dns" THEN [z EXCEPT !.want = t]
                      ELSE [z EXCEPT !.out = <<t>>, !.phase = IF t[1] = "rq" THEN "await" ELSE "up"])
\* handler calls: with is_open() false exactly once, when the connection was lost
H(open, now) ==
  IF open THEN Open /\ Put([x EXCEPT !.off = TRUE])
  ELSE /\ \/ x.phase = "dns" /\ x.ans = 0
          \/ x.phase = "dns" /\ x.ans > 0 /\ (x.nosock \/ x.flt)
          \/ Open /\ x.phase # "dns" /\ x.sk = "closed"
          \/ Open /\ x.phase \in {"wait", "await", "up"} /\ x.flt
       /\ ~(Avail /\ ~x.off /\ ~x.more /\ ~Unsent) \/ x.gone = "err" \/ x.fin \/ x.flt
       /\ Put([Closed EXCEPT !.flt = FALSE])
St(open, host, port) == open = Open /\ host = x.host /\ port = x.port /\ UNCHANGED x
Read(id, st, ver, ka, n, ok, open) ==
  /\ ok /\ x.phase = "await" /\ x.in # <<>> /\ Head(x.in) = <<"rs", id, st, ver, ka, n>>
  /\ x.out = <<>>
  /\ Put([x EXCEPT !.in = Tail(@), !.phase = "wait", !.off = FALSE, !.more = TRUE, !.maybe = FALSE])
Msg(op, body, code) ==
  /\ x.phase = "ws" /\ CanDeliver(x.w, op, body, code)
  /\ Put([x EXCEPT !.w = Delivered(@), !.off = FALSE, !.more = TRUE])
ReadNone == ~(x.off /\ Avail /\ ~Unsent /\ ~x.fin /\ x.sk = "up") /\ Put([x EXCEPT !.off = FALSE, !.more = FALSE])
\* on the wire
WireReq(s, id, host, ver, ka, n, ok) ==
  /\ ok /\ s = x.s /\ x.out = <<<<"rq", id, ver, ka, n>>>> /\ host = x.host /\ x.phase = "await"
  /\ Put([x EXCEPT !.out = <<>>])
WireUp(s, id, host, ok) ==
  /\ ok /\ s = x.s /\ x.out = <<<<"ug", id>>>> /\ host = x.host /\ x.phase = "up"
  /\ Put([x EXCEPT !.out = <<>>])
WireFrame(s, fin, op, masked, minimal, body, now) ==
  /\ s = x.s /\ x.phase \in {"up", "ws"} /\ x.out = <<>> /\ masked /\ minimal /\ ~x.fin
  /\ CanWire(x.w, fin, op, body, now)
  /\ Put([x EXCEPT !.w = Wired(@, fin, op, body, now)])
Fin(now) ==
  /\ x.sk \in {"pend", "up"} /\ ~x.fin /\ x.out = <<>>
  /\ Malformed(x) \/ (x.phase \in {"up", "ws"} /\ MayEnd(x.w))
  /\ Put([x EXCEPT !.fin = TRUE, !.finAt = now])
\* the loop goes to sleep: nothing may be left undone
Held == x.off /\ Avail                  \* the application does not read
Easy == x.sk = "up" /\ x.gone = "" /\ x.roomy
Settled(now, to) ==
  /\ x.phase # "conn0" /\ x.sk # "old" /\ x.try = <<>>
  /\ x.phase = "dns" => x.ans = -1
  /\ (x.sk = "closed") => ~Open
  /\ (Open /\ x.phase # "dns") => x.sk \in {"pend", "up"}
  /\ Easy => x.out = <<>>
  /\ (Easy /\ x.phase = "await" /\ Avail) => x.off
  /\ (Easy /\ x.phase = "wait") => (x.in = <<>> /\ x.beg = "")
  /\ (Easy /\ Sure(x) /\ ~(x.phase = "up" /\ x.w.sent)) => x.fin
  /\ (Easy /\ x.phase \in {"up", "ws"}) => (x.fin \/ x.off \/ x.more \/ Quiet(x.w, now, to)) /\ ((MustEnd(x.w) /\ (x.w.gone \/ x.w.dl = <<>>)) => x.fin)
  /\ x.fin => (now < x.finAt + LINGER /\ now + to <= x.finAt + LINGER + 2)
  /\ (x.gone # "") => (x.fin \/ Held \/ x.more \/ (x.gone = "eof" /\ ~x.roomy /\ Unsent))
Sleep(now, to, open) ==
  /\ Settled(now, to) /\ open = (IF x.sk \in {"pend", "up"} THEN 1 ELSE 0)
  /\ UNCHANGED x
Step(e) ==
  \/ e[1] = "conn"  /\ Conn(e[2])
  \/ e[1] = "conh"  /\ ConnH(e[2], e[3])
  \/ e[1] = "badc"  /\ BadConn(e[2], e[3])
  \/ e[1] = "connr" /\ ConnR(e[2], e[3])
  \/ e[1] = "flt"   /\ Fault
  \/ e[1] = "dnsq"  /\ DnsQ(e[2], e[3], e[4], e[5])
  \/ e[1] = "dns"   /\ Dns(e[2], e[3])
  \/ e[1] = "sock"  /\ Sock(e[2], e[3], e[4], e[5])
  \/ e[1] = "cok"   /\ COk
  \/ e[1] = "cfail" /\ CFail
  \/ e[1] = "os"    /\ Os(e[2], e[3], e[4])
  \/ e[1] = "bg"    /\ Begin(e[2])
  \/ e[1] = "it"    /\ Item(e[2])
  \/ e[1] = "peof"  /\ Eof
  \/ e[1] = "perr"  /\ Error
  \/ e[1] = "close" /\ Close(e[2])
  \/ e[1] = "cancel" /\ Close(e[2])
  \/ e[1] = "req"   /\ Try(<<"rq", e[2], e[4], e[5], e[3]>>)
  \/ e[1] = "upg"   /\ Try(<<"ug", e[2]>>)
  \/ e[1] = "wsend" /\ Try(<<"ws", e[2], e[3], e[4], e[5]>>)
  \/ e[1] = "reqr"  /\ TryR(e[2])
  \/ e[1] = "h"     /\ H(e[2], e[3])
  \/ e[1] = "st"    /\ St(e[2], e[3], e[4])
  \/ e[1] = "rd"    /\ Read(e[2], e[3], e[4], e[5], e[6], e[7], e[8])
  \/ e[1] = "wmsg"  /\ Msg(e[2], e[3], e[4])
  \/ e[1] = "rdn"   /\ ReadNone
  \/ e[1] = "wq"    /\ WireReq(e[2], e[3], e[4], e[5], e[6], e[7], e[8])
  \/ e[1] = "wu"    /\ WireUp(e[2], e[3], e[4], e[5])
  \/ e[1] = "wf"    /\ WireFrame(e[2], e[3], e[4], e[5], e[6], e[7], e[8])
  \/ e[1] = "fin"   /\ Fin(e[2])
  \/ e[1] = "ret"   /\ UNCHANGED x
  \/ e[1] = "sleep" /\ e[3] > 0 /\ Sleep(e[2], e[3], e[4])
=============================================================================
