------------------------------ MODULE WebSock --------------------------------
(* What both ends of a web socket owe each other, as operators on a record w:  *)
(*   dl: messages <<op, body, code>> to deliver, in order; part: fragmented     *)
(*   message so far; pongs: bodies of pings not yet answered; bad: the peer     *)
(*   broke the protocol; u8: a text that is not UTF-8 arrived and must be       *)
(*   answered with 1007; got: the peer's close is in dl or was delivered;       *)
(*   out: frames <<fin, op, body>> the application wrote, not yet on the wire;   *)
(*   strm: a streamed message is open; sent: close was written; gone: close is  *)
(*   on the wire; base/act: for the ping timer.                                 *)
EXTENDS Naturals, Integers, Sequences, Utf8
WNone == [dl |-> <<>>, part |-> <<>>, pongs |-> <<>>, bad |-> FALSE, u8 |-> FALSE, got |-> FALSE,
          out |-> <<>>, strm |-> FALSE, sent |-> FALSE, gone |-> FALSE, lazy |-> FALSE, base |-> 0, act |-> 0, timer |-> 0, tick |-> FALSE]
WNew(now, timer) == [WNone EXCEPT !.base = now, !.act = now, !.timer = timer]
Due(w, now) == w.timer > 0 /\ now >= w.base + w.timer
TEXT == 1
BINARY == 2
CLOSE == 8
PING == 9
PONG == 10
Cut(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s
\* close frame bodies
CloseBody(reason, code) ==
  IF reason = <<>> /\ code = 1005 THEN <<>>
  ELSE LET k == IF code < 1000 THEN 1000 ELSE code IN Cut(<<k \div 256, k % 256>> \o reason, 125)
CloseMsg(b) == IF Len(b) < 2 THEN <<CLOSE, <<>>, 1005>>
               ELSE LET r == SubSeq(b, 3, Len(b)) IN <<CLOSE, IF Utf8(r) THEN r ELSE <<>>, b[1] * 256 + b[2]>>
Complete(w, op, body) ==
  IF op = TEXT /\ ~Utf8(body) THEN [w EXCEPT !.part = <<>>, !.u8 = TRUE]
  ELSE [w EXCEPT !.part = <<>>, !.dl = Append(@, <<op, body, 0>>)]
Deaf(w) == w.bad \/ w.u8 \/ w.got \/ w.sent      \* what the peer sends does not matter any more
\* a frame with a valid header arrived
Recv(w, fin, op, body) ==
  IF Deaf(w) THEN w
  ELSE IF op = PING THEN [w EXCEPT !.pongs = Append(@, body)]
  ELSE IF op = PONG THEN w
  ELSE IF op = CLOSE THEN [w EXCEPT !.dl = Append(@, CloseMsg(body)), !.got = TRUE]
  ELSE IF (op = 0) = (w.part = <<>>) THEN [w EXCEPT !.bad = TRUE]
  ELSE LET o == IF op = 0 THEN w.part[1] ELSE op
           b == IF op = 0 THEN w.part[2] \o body ELSE body
       IN IF fin = 1 THEN Complete(w, o, b) ELSE [w EXCEPT !.part = <<o, b>>]
RecvBad(w) == IF Deaf(w) THEN w ELSE [w EXCEPT !.bad = TRUE]
\* the application is handed a message
CanDeliver(w, op, body, code) == w.dl # <<>> /\ Head(w.dl) = <<op, body, code>>
Delivered(w) == [w EXCEPT !.dl = Tail(@)]
\* the application writes
Touch(w, now) == [w EXCEPT !.tick = @ \/ Due(w, now), !.base = now, !.act = now, !.lazy = FALSE]
Send(w, op, body, code, now) ==
  IF w.sent THEN w
  ELSE LET b == IF op = CLOSE THEN CloseBody(body, code) ELSE IF op >= 8 THEN Cut(body, 125) ELSE body
       IN Touch([w EXCEPT !.out = Append(@, <<1, op, b>>), !.sent = (op = CLOSE)], now)
StreamBegin(w, op) == IF w.sent THEN [w EXCEPT !.strm = TRUE]
                      ELSE [w EXCEPT !.out = Append(@, <<0, op, <<>>>>), !.strm = TRUE, !.lazy = TRUE]
StreamPut(w, body, lazy, now) ==
  IF w.sent \/ body = <<>> THEN w
  ELSE LET v == [w EXCEPT !.out = Append(@, <<0, 0, body>>)] IN IF lazy THEN [v EXCEPT !.lazy = TRUE] ELSE Touch(v, now)
StreamEnd(w, lazy, now) ==
  IF w.sent THEN [w EXCEPT !.strm = FALSE]
  ELSE LET v == [w EXCEPT !.out = Append(@, <<1, 0, <<>>>>), !.strm = FALSE] IN IF lazy THEN [v EXCEPT !.lazy = TRUE] ELSE Touch(v, now)
\* a frame is on the wire
IsTick(op, body) == op = PING /\ body = <<>>
CanWire(w, fin, op, body, now) ==
  /\ ~w.gone
  /\ \/ w.out # <<>> /\ Head(w.out) = <<fin, op, body>>
     \/ op = PONG /\ fin = 1 /\ w.pongs # <<>> /\ Head(w.pongs) = body
     \/ op = CLOSE /\ fin = 1 /\ w.u8 /\ body = <<3, 239>>
     \/ IsTick(op, body) /\ fin = 1 /\ (w.tick \/ (~w.sent /\ Due(w, now)))
Wired(w, fin, op, body, now) ==
  LET v == [w EXCEPT !.act = now] IN
  IF w.out # <<>> /\ Head(w.out) = <<fin, op, body>>
  THEN IF op = CLOSE THEN [v EXCEPT !.out = <<>>, !.pongs = <<>>, !.gone = TRUE] ELSE [v EXCEPT !.out = Tail(@)]
  ELSE IF op = PONG THEN [v EXCEPT !.pongs = Tail(@)]
  ELSE IF op = CLOSE THEN [v EXCEPT !.out = <<>>, !.pongs = <<>>, !.gone = TRUE, !.sent = TRUE]
  ELSE IF w.tick THEN [v EXCEPT !.tick = FALSE] ELSE [v EXCEPT !.base = @ + w.timer]
\* the stream may be ended / must be ended
MayEnd(w)  == w.gone \/ w.bad
\* with a peer that is there and takes everything
Quiet(w, now, to) ==
  /\ w.lazy \/ w.bad \/ w.out = <<>>
  /\ w.strm \/ w.sent \/ w.lazy \/ (w.dl = <<>> /\ (w.bad \/ w.pongs = <<>>))
  /\ (w.u8 /\ ~w.strm /\ ~w.lazy) => w.gone
  /\ (w.timer > 0 /\ ~w.sent /\ ~w.bad /\ ~w.gone /\ ~w.lazy) => (now < w.act + w.timer /\ now + to <= w.act + w.timer + 2)
MustEnd(w) == ~w.lazy /\ (w.gone \/ (w.bad /\ ~w.strm))
=============================================================================
