------------------------------ MODULE HttpServ -------------------------------
(* Contract of http::Server and ServerConnection (C10, C12) and of their web   *)
(* sockets (C13, C14), seen from the clients and from the application.          *)
EXTENDS WebSock, TLC
CONSTANTS K, LINGER, TICK     \* connections, ms after end of stream, ms between pings
VARIABLES c, mx               \* per connection; limit of connections
svars == <<c, mx>>
(* in: complete things the client sent and the server has not consumed: requests *)
(* <<"rq", id, version, keepalive, length, upgradable>>, web socket frames, or    *)
(* malformed bytes; beg: kind of the thing being sent; m: what the application    *)
(* owes for request id: "" "req" "post" "stream" "ws"; out: answers that must     *)
(* appear on the wire <<id, status, version, keepalive, length>>.                  *)
Cold == [acc |-> FALSE, open |-> FALSE, roomy |-> TRUE, eof |-> FALSE, err |-> FALSE, in |-> <<>>, beg |-> "",
         m |-> "", id |-> 0, ver |-> 0, ka |-> 0, upg |-> 0, st |-> 0, len |-> 0, early |-> FALSE, n |-> 0, wn |-> 0, lazy |-> FALSE,
         out |-> <<>>, ended |-> FALSE, fin |-> FALSE, finAt |-> 0, told |-> FALSE, w |-> WNone]
Init == c = [k \in K |-> Cold] /\ mx = 0
Gone(x) == x.eof \/ x.err
\* a web socket takes what has arrived at once; after that nothing waits
Feed(w, it) == IF it[1] = "fr" THEN Recv(w, it[2], it[3], it[4]) ELSE RecvBad(w)
RECURSIVE Absorb(_)
Absorb(x) == IF x.m # "ws" \/ x.in = <<>> THEN x
             ELSE Absorb([x EXCEPT !.w = Feed(x.w, Head(x.in)), !.in = Tail(@)])
Put(k, x) == c' = [c EXCEPT ![k] = Absorb(x)] /\ UNCHANGED mx
\* the client
Acc(k, port, roomy, open) ==        \* taken from the OS in order, never above the limit
  /\ ~c[k].acc /\ port = k /\ open <= mx
  /\ Put(k, [c[k] EXCEPT !.acc = TRUE, !.open = TRUE, !.roomy = roomy])
Begin(k, kind) == Put(k, [c[k] EXCEPT !.beg = kind])
Item(k, it)    == Put(k, [c[k] EXCEPT !.in = Append(@, it), !.beg = ""])
Eof(k)         == Put(k, [c[k] EXCEPT !.eof = TRUE])
Err(k)         == Put(k, [c[k] EXCEPT !.err = TRUE])
Os(k, open, roomy, now) ==
  /\ c[k].open /\ (~open => Gone(c[k]) \/ (c[k].fin /\ now >= c[k].finAt + LINGER))
  /\ Put(k, [c[k] EXCEPT !.open = open, !.roomy = roomy])
\* the application
Request(k, id, ver, ka, n, ok) ==
  LET x == c[k] IN
  /\ x.acc /\ x.m = "" /\ ~x.ended /\ ~x.told /\ x.in # <<>> /\ ok
  /\ x.out = <<>>                     \* the previous answer was taken by the OS
  /\ LET it == Head(x.in) IN
     /\ it[1] = "rq" /\ it[2] = id /\ it[3] = ver /\ it[4] = ka /\ it[5] = n
     /\ Put(k, [x EXCEPT !.in = Tail(@), !.m = "req", !.id = id, !.ver = ver, !.ka = ka, !.upg = it[6]])
Owes(x) == x.m \in {"req", "post"}
Answered(x, status, n) ==
  [x EXCEPT !.m = "", !.out = IF x.early THEN @ ELSE Append(@, <<x.id, status, x.ver, x.ka, n>>), !.early = FALSE, !.ended = (x.ka = 0), !.wn = 0]
Answer(k, status, n) == Owes(c[k]) /\ Put(k, [Answered(c[k], status, n) EXCEPT !.lazy = FALSE])
Postpone(k) == c[k].m = "req" /\ Put(k, [c[k] EXCEPT !.m = "post"])
StreamBeg(k, status, len) == Owes(c[k]) /\ Put(k, [c[k] EXCEPT !.m = "stream", !.st = status, !.len = len, !.n = 0, !.wn = 0, !.lazy = FALSE])
SPut(k, n, fin, lazy) ==
  LET x == [c[k] EXCEPT !.n = @ + n, !.lazy = lazy \/ (n = 0 /\ @)] IN
  x.m = "stream" /\ Put(k, IF fin THEN Answered(x, x.st, x.n) ELSE x)
SLast(k, lazy) == c[k].m = "stream" /\ Put(k, [Answered(c[k], c[k].st, c[k].n) EXCEPT !.lazy = lazy])
\* an exception left the request handler: answered with that status unless an answer was begun
Throw(k, status, known) ==
  LET x == c[k] IN
  IF ~Owes(x) THEN UNCHANGED svars
  ELSE /\ known \/ x.upg = 0            \* upgrade refused
       /\ Put(k, [Answered([x EXCEPT !.id = IF known THEN @ ELSE 0], status, 0) EXCEPT !.lazy = FALSE])
Upgrade(k, now) ==
  Owes(c[k]) /\ IF c[k].upg = 0 THEN UNCHANGED svars ELSE Put(k, [c[k] EXCEPT !.m = "ws", !.out = Append(@, <<c[k].id, 101, 11, 1, 0>>), !.w = WNew(now, TICK)])
\* told of a disconnect: only when there is one, and once
DCall(k) == c[k].m = "post" /\ Gone(c[k]) /\ ~c[k].told /\ Put(k, [c[k] EXCEPT !.told = TRUE, !.m = ""])
Stream(k, id, open) ==
  LET x == c[k]
      mine == (x.m = "stream" /\ x.id = id /\ ~x.told) \/ (x.m = "ws" /\ x.w.strm)
  IN mine /\ IF open THEN Put(k, [x EXCEPT !.lazy = FALSE, !.w.lazy = x.w.lazy])
             ELSE /\ Gone(x) \/ x.fin
                  /\ Put(k, IF x.m = "stream" THEN [x EXCEPT !.told = TRUE, !.m = ""] ELSE [x EXCEPT !.w.strm = FALSE])
\* web socket
Unsent(x) == x.out # <<>> \/ x.w.out # <<>> \/ x.w.pongs # <<>>
Msg(k, op, body, code, now) ==
  LET x == c[k] IN
  /\ x.m = "ws" /\ ~x.told
  /\ \/ ~x.w.strm /\ CanDeliver(x.w, op, body, code) /\ Put(k, [x EXCEPT !.w = Delivered(@), !.told = (op = CLOSE)])
     \/ /\ op = CLOSE /\ body = <<>> /\ code = (IF x.w.sent THEN 1000 ELSE 1006)
        /\ x.err \/ (x.eof /\ (x.w.dl = <<>> \/ x.w.sent \/ Unsent(x))) \/ (x.fin /\ now >= x.finAt + LINGER)
        /\ Put(k, [x EXCEPT !.told = TRUE])
     \/ /\ op = CLOSE /\ body = <<>> /\ x.w.u8 /\ code = 1006      \* refused a text, then disconnected
        /\ x.err \/ x.eof \/ (x.fin /\ now >= x.finAt + LINGER)
        /\ Put(k, [x EXCEPT !.told = TRUE])
WSend(k, op, body, code, now)  == c[k].m = "ws" /\ Put(k, [c[k] EXCEPT !.w = Send(@, op, body, code, now)])
WBeg(k, op)                    == c[k].m = "ws" /\ Put(k, [c[k] EXCEPT !.w = StreamBegin(@, op)])
WPut(k, body, lazy, now)       == c[k].m = "ws" /\ Put(k, [c[k] EXCEPT !.w = StreamPut(@, body, lazy, now)])
WLast(k, lazy, now)            == c[k].m = "ws" /\ Put(k, [c[k] EXCEPT !.w = StreamEnd(@, lazy, now)])
WThrow(k, what, now)           == c[k].m = "ws" /\ Put(k, [c[k] EXCEPT !.w = Send(@, CLOSE, what, 1011, now)])
\* on the wire
WireResp(k, id, status, ver, ka, n, ok, now) ==
  /\ ok /\ c[k].out # <<>> /\ Head(c[k].out) = <<id, status, ver, ka, n>>
  /\ Put(k, [c[k] EXCEPT !.out = Tail(@), !.lazy = @ /\ (Len(c[k].out) > 1 \/ c[k].m = "stream"), !.w.act = now])
\* an answer of no bytes is complete before the application says so
WireNone(k, id, status, ver, ka, n, ok) ==
  LET x == c[k] IN
  /\ ok /\ x.out = <<>> /\ x.m = "stream" /\ x.len = 0 /\ n = 0 /\ ~x.early /\ <<id, status, ver, ka>> = <<x.id, x.st, x.ver, x.ka>>
  /\ Put(k, [x EXCEPT !.early = TRUE])
WirePart(k, id, status, n) ==       \* the beginning of an answer
  /\ \/ c[k].out # <<>> /\ Head(c[k].out)[1] = id /\ Head(c[k].out)[2] = status /\ n <= Head(c[k].out)[5]
     \/ c[k].out = <<>> /\ c[k].m = "stream" /\ c[k].id = id /\ c[k].st = status /\ n <= c[k].n
  /\ Put(k, [c[k] EXCEPT !.wn = n])
WireFrame(k, fin, op, masked, minimal, body, now) ==
  LET x == c[k] IN
  /\ x.m = "ws" /\ x.out = <<>> /\ ~masked /\ minimal /\ ~x.fin
  /\ CanWire(x.w, fin, op, body, now)
  /\ Put(k, [x EXCEPT !.w = Wired(@, fin, op, body, now)])
\* the server ends the stream
Malformed(x) == x.m = "" /\ ((x.in # <<>> /\ Head(x.in)[1] # "rq") \/ (x.in = <<>> /\ x.beg \in {"mal", "fr"}))
Fin(k, now) ==
  LET x == c[k] IN
  /\ x.acc /\ ~x.fin /\ x.out = <<>>
  /\ \/ x.m = "" /\ (x.ended \/ Malformed(x))
     \/ x.m = "ws" /\ (MayEnd(x.w) \/ x.beg \in {"mal", "rq"})
  /\ Put(k, [x EXCEPT !.fin = TRUE, !.finAt = now])
\* the application closes it: nothing more of this client
Close(k) == c[k].acc /\ Put(k, [Cold EXCEPT !.acc = TRUE, !.told = TRUE, !.ended = TRUE])
\* the loop goes to sleep: nothing may be left undone
Settled(x, now, to) ==
  LET easy == x.open /\ ~Gone(x) /\ x.roomy /\ ~x.lazy IN
  /\ (easy /\ x.m # "ws") => x.out = <<>>
  /\ (easy /\ x.m = "" /\ ~x.ended /\ ~x.fin) => x.in = <<>>
  /\ (easy /\ x.m = "" /\ (x.ended \/ (x.in # <<>> /\ Malformed(x)))) => x.fin
  /\ (easy /\ x.m = "stream") => x.wn = x.n
  /\ (easy /\ x.m = "ws") => x.out = <<>> /\ (x.fin \/ Quiet(x.w, now, to)) /\ (MustEnd(x.w) => x.fin)
  /\ x.m # "req"
  /\ x.fin => (~x.open \/ (now < x.finAt + LINGER /\ now + to <= x.finAt + LINGER + 2))
  \* a disconnect is noticed unless reading is suspended
  /\ (Gone(x) /\ ~x.fin /\ ~x.lazy /\ (x.roomy \/ x.err) /\ x.m = "") => ~x.open
  /\ (Gone(x) /\ ~x.fin /\ (x.roomy \/ x.err) /\ x.m = "post" /\ x.in = <<>> /\ x.beg = "") => FALSE
  /\ (Gone(x) /\ ~x.fin /\ ~x.w.lazy /\ (x.roomy \/ x.err) /\ x.m = "ws" /\ ~x.w.strm) => (~x.open /\ x.told)
  /\ (~x.open /\ x.acc) => x.m \in {"", "ws"}
  /\ (~x.open /\ x.acc /\ x.m = "ws") => x.told
Sleep(now, to, waiting, open) ==
  /\ \A k \in K : c[k].acc => Settled(c[k], now, to)
  /\ waiting > 0 => open >= mx
  /\ UNCHANGED svars
Step(e) ==
  \/ e[1] = "max"   /\ mx' = e[2] /\ UNCHANGED c
  \/ e[1] = "inc"   /\ UNCHANGED svars
  \/ e[1] = "acc"   /\ Acc(e[2], e[3], e[4], e[5])
  \/ e[1] = "bg"    /\ Begin(e[2], e[3])
  \/ e[1] = "it"    /\ Item(e[2], e[3])
  \/ e[1] = "peof"  /\ Eof(e[2])
  \/ e[1] = "perr"  /\ Err(e[2])
  \/ e[1] = "os"    /\ Os(e[2], e[3], e[4], e[5])
  \/ e[1] = "hreq"  /\ Request(e[2], e[3], e[4], e[5], e[6], e[7])
  \/ e[1] = "ans"   /\ Answer(e[2], e[3], e[4])
  \/ e[1] = "post"  /\ Postpone(e[2])
  \/ e[1] = "sbeg"  /\ StreamBeg(e[2], e[3], e[4])
  \/ e[1] = "sput"  /\ SPut(e[2], e[3], e[4], e[5])
  \/ e[1] = "slast" /\ SLast(e[2], e[3])
  \/ e[1] = "thr"   /\ Throw(e[2], e[3], e[4])
  \/ e[1] = "up"    /\ Upgrade(e[2], e[3])
  \/ e[1] = "dcall" /\ DCall(e[2])
  \/ e[1] = "hs"    /\ Stream(e[2], e[3], e[4])
  \/ e[1] = "wmsg"  /\ Msg(e[2], e[3], e[4], e[5], e[7])
  \/ e[1] = "wsend" /\ WSend(e[2], e[3], e[4], e[5], e[6])
  \/ e[1] = "wsbeg" /\ WBeg(e[2], e[3])
  \/ e[1] = "wput"  /\ WPut(e[2], e[3], e[4], e[5])
  \/ e[1] = "wlast" /\ WLast(e[2], e[3], e[4])
  \/ e[1] = "wthr"  /\ WThrow(e[2], e[3], e[4])
  \/ e[1] = "wr"    /\ (WireResp(e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9]) \/ WireNone(e[2], e[3], e[4], e[5], e[6], e[7], e[8]))
  \/ e[1] = "wp"    /\ WirePart(e[2], e[3], e[4], e[5])
  \/ e[1] = "wf"    /\ WireFrame(e[2], e[3], e[4], e[5], e[6], e[7], e[8])
  \/ e[1] = "fin"   /\ Fin(e[2], e[3])
  \/ e[1] = "cls"   /\ Close(e[2])
  \/ e[1] = "ret"   /\ UNCHANGED svars
  \/ e[1] = "sleep" /\ e[3] > 0 /\ Sleep(e[2], e[3], e[4], e[5])
=============================================================================
