-------------------------------- MODULE Tcp ---------------------------------
(* Contract of TCPSocket (C06, part of C02): what an application may observe  *)
(* of its sockets and a peer of its connections.  Deterministic in the events *)
(* of Step, so it is used both as a monitor of the design (TcpImpl) and of    *)
(* recorded executions (NetTrace).                                            *)
EXTENDS Naturals, Integers, Sequences
CONSTANT S                        \* socket objects
VARIABLES sk,   \* per object
          cn    \* per connection, in order of creation
tvars == <<sk, cn>>
(* sk[s].st: "closed", "open", or "maybe": a read or write has just answered 0  *)
(* where the end of the connection was there to be seen, so that the socket may *)
(* or may not have noticed; pend: a close event is due; wr/ww: the application  *)
(* waits for readability / writability; cause: OS happenings not yet answered   *)
(* by a handler call; zw: a write answered 0 and nothing happened since.         *)
Dead  == [alive |-> FALSE, st |-> "closed", k |-> 0, pend |-> FALSE, wr |-> FALSE, ww |-> FALSE, cause |-> 0, zw |-> FALSE]
Fresh == [Dead EXCEPT !.alive = TRUE]
Init == sk = [s \in S |-> Dead] /\ cn = <<>>
NewConn(est, space) == [rx |-> <<>>, eof |-> FALSE, err |-> FALSE, est |-> est, tx |-> <<>>, os |-> <<>>, space |-> space,
                        asked |-> FALSE, fin |-> FALSE, must |-> FALSE, osopen |-> TRUE]
Min(a, b)  == IF a < b THEN a ELSE b
Drop(q, n) == SubSeq(q, n + 1, Len(q))
Take(q, n) == SubSeq(q, 1, n)
IsOpen(s)  == sk[s].st # "closed" \/ sk[s].pend
CanRead(c)  == c.err \/ (c.est /\ (c.rx # <<>> \/ c.eof))
CanWrite(c) == c.err \/ (c.est /\ c.space > 0)
Over(c)     == c.rx = <<>> /\ (c.eof \/ c.err)

Bump(k) == sk' = [s \in S |-> IF sk[s].k = k /\ sk[s].st # "closed" THEN [sk[s] EXCEPT !.cause = @ + 1, !.zw = FALSE] ELSE sk[s]]
New(s) == ~sk[s].alive /\ sk' = [sk EXCEPT ![s] = Fresh] /\ UNCHANGED cn
Del(s) == sk[s].alive /\ sk' = [sk EXCEPT ![s] = Dead] /\ UNCHANGED cn
Opened(s, k, est, space, cause) ==
  /\ k = Len(cn) + 1 /\ cn' = Append(cn, NewConn(est, space))
  /\ sk' = [sk EXCEPT ![s] = [Fresh EXCEPT !.st = "open", !.k = k, !.wr = TRUE, !.ww = TRUE, !.cause = cause]]
\* connect: fails only if the OS refused
Connect(s, ok, refused, k, est, space) ==
  /\ sk[s].alive /\ ok = ~refused
  /\ IF ok THEN Opened(s, k, est, space, IF est THEN 2 ELSE 0)
     ELSE sk' = [sk EXCEPT ![s] = Fresh] /\ UNCHANGED cn
\* accepting always succeeds, but may be followed by a close event at once
Accept(s, refused, k, space) ==
  /\ sk[s].alive
  /\ IF ~refused THEN Opened(s, k, TRUE, space, 1)
     ELSE sk' = [sk EXCEPT ![s] = [Fresh EXCEPT !.pend = TRUE]] /\ k = Len(cn) + 1 /\ cn' = Append(cn, NewConn(TRUE, space))
Close(s, ev) ==
  /\ sk[s].alive /\ UNCHANGED cn
  /\ sk' = IF IsOpen(s) THEN [sk EXCEPT ![s] = [Fresh EXCEPT !.pend = ev]] ELSE sk
\* is_open() and can_write() as reported: false after a write answered 0, until something happens
Open(s, b, w) == /\ sk[s].alive /\ b = IsOpen(s) /\ UNCHANGED tvars
                 /\ (sk[s].st = "open" /\ sk[s].zw /\ sk[s].cause = 0) => ~w
Read(s, count, data) ==
  LET c == cn[sk[s].k] IN
  /\ sk[s].alive /\ Len(data) <= count
  /\ IF sk[s].st = "closed" \/ count = 0 THEN data = <<>> /\ UNCHANGED tvars
     ELSE IF data # <<>>
          THEN /\ c.est \/ c.err
               /\ data = Take(c.rx, Len(data))
               /\ cn' = [cn EXCEPT ![sk[s].k].rx = Drop(@, Len(data))]
               /\ sk' = [sk EXCEPT ![s].st = "open", ![s].wr = FALSE]
          ELSE /\ sk' = [sk EXCEPT ![s].wr = TRUE, ![s].st = IF Over(c) THEN "maybe" ELSE @]
               /\ UNCHANGED cn
Write(s, data, n) ==
  LET c == cn[sk[s].k] IN
  /\ sk[s].alive /\ n <= Len(data)
  /\ IF sk[s].st = "closed" THEN n = 0 /\ UNCHANGED tvars
     ELSE IF n > 0
          THEN /\ c.est /\ ~c.fin /\ n <= c.space
               /\ cn' = [cn EXCEPT ![sk[s].k].tx = @ \o Take(data, n), ![sk[s].k].space = @ - n]
               /\ sk' = [sk EXCEPT ![s].st = "open", ![s].ww = FALSE]
          \* nothing to write says nothing about space
          ELSE /\ sk' = [sk EXCEPT ![s].ww = @ \/ data # <<>>, ![s].zw = @ \/ data # <<>>, ![s].st = IF c.err \/ c.fin THEN "maybe" ELSE @]
               /\ UNCHANGED cn
\* asked before it is done; with write possible the OS must be told
Shutdown(s, canWrite) ==
  /\ sk[s].alive
  /\ IF sk[s].st = "closed" THEN UNCHANGED tvars
     ELSE /\ cn' = [cn EXCEPT ![sk[s].k].asked = TRUE, ![sk[s].k].must = @ \/ (canWrite /\ ~cn[sk[s].k].err)]
          /\ UNCHANGED sk
OsFin(k) == cn[k].asked /\ cn' = [cn EXCEPT ![k].fin = TRUE] /\ Bump(k)
\* the handler is entered; open is what is_open() says there
Handler(s, open) ==
  LET c == cn[sk[s].k] IN
  /\ sk[s].alive
  /\ IF open THEN /\ sk[s].st # "closed" /\ sk[s].cause > 0
                  /\ sk' = [sk EXCEPT ![s].st = "open", ![s].cause = @ - 1,
                                      ![s].wr = @ /\ ~CanRead(c), ![s].ww = @ /\ ~CanWrite(c), ![s].zw = FALSE]
     ELSE /\ (sk[s].st = "closed" /\ sk[s].pend) \/ sk[s].st = "maybe"
          /\ sk' = [sk EXCEPT ![s] = Fresh]
  /\ UNCHANGED cn
\* the world outside
PeerSend(k, data) == cn' = [cn EXCEPT ![k].rx = @ \o data] /\ Bump(k)
PeerEof(k)        == cn' = [cn EXCEPT ![k].eof = TRUE] /\ Bump(k)
PeerErr(k)        == cn' = [cn EXCEPT ![k].err = TRUE] /\ Bump(k)
Established(k)    == cn' = [cn EXCEPT ![k].est = TRUE] /\ Bump(k)
Refused(k)        == cn' = [cn EXCEPT ![k].err = TRUE] /\ Bump(k)
Space(k, n)       == cn' = [cn EXCEPT ![k].space = @ + n] /\ Bump(k)
\* what the peer has got so far, whether the OS still holds the connection
Seen(k, more, open) ==
  /\ cn' = [cn EXCEPT ![k].os = @ \o more, ![k].osopen = open]
  /\ UNCHANGED sk
\* the loop goes to sleep: nothing may be left undone
Owned(k) == \E s \in S : sk[s].alive /\ sk[s].k = k /\ sk[s].st # "closed"
SleepOK ==
  /\ \A s \in S : sk[s].alive => LET c == cn[sk[s].k] IN
       /\ ~sk[s].pend /\ sk[s].st # "maybe"
       /\ sk[s].st = "open" => /\ ~(sk[s].wr /\ CanRead(c))
                               /\ ~(sk[s].ww /\ CanWrite(c) /\ ~c.fin)
  /\ \A k \in DOMAIN cn :
       /\ cn[k].os = cn[k].tx
       /\ cn[k].must => cn[k].fin
       /\ cn[k].osopen = Owned(k)
Sleep == SleepOK /\ UNCHANGED tvars
Step(e) ==
  \/ e[1] = "new"   /\ New(e[2])
  \/ e[1] = "del"   /\ Del(e[2])
  \/ e[1] = "conn"  /\ Connect(e[2], e[3], e[4], e[5], e[6], e[7])
  \/ e[1] = "close" /\ Close(e[2], e[3])
  \/ e[1] = "open"  /\ Open(e[2], e[3], e[4])
  \/ e[1] = "rd"    /\ Read(e[2], e[3], e[4])
  \/ e[1] = "wr"    /\ Write(e[2], e[3], e[4])
  \/ e[1] = "wsh"   /\ Shutdown(e[2], e[3])
  \/ e[1] = "h"     /\ Handler(e[2], e[3])
  \/ e[1] = "psend" /\ PeerSend(e[2], e[3])
  \/ e[1] = "peof"  /\ PeerEof(e[2])
  \/ e[1] = "perr"  /\ PeerErr(e[2])
  \/ e[1] = "cok"   /\ Established(e[2])
  \/ e[1] = "cfail" /\ Refused(e[2])
  \/ e[1] = "space" /\ Space(e[2], e[3])
  \/ e[1] = "seen"  /\ Seen(e[2], e[3], e[4])
  \/ e[1] = "osfin" /\ OsFin(e[2])
=============================================================================
