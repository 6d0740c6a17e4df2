---------------------------- MODULE HttpServImpl ----------------------------
(* http::Server and ServerConnection as designed, for one client: the states   *)
(* of the connection, the read buffer, the suspension of reading while data    *)
(* waits to be sent, the zero timer that resumes it, postponed and streamed    *)
(* answers with handlers that run inside each other, on a buffered socket and  *)
(* an edge triggered kernel.  Sizes are units: a head, a piece of a body, a    *)
(* last chunk.  Every step writes the events a driver would log (x.ev); the    *)
(* contract HttpServ takes them one by one as a monitor.                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Reqs,        \* what the client sends: "k" keep-alive request, "c" one that closes, "m" malformed
          Space0, SpaceN, OkN, StrN, PutN, AgeN, MaxOps, MaxBlock, MaxWaits, MaxEnv, MaxHandlers, Kinds
VARIABLES pc, x, ctl, cnt, hist, c, mx, bad
core == <<pc, x, ctl, cnt>>
view == <<core, c, mx, bad>>
Linger == 15000
M == INSTANCE HttpServ WITH K <- {0}, LINGER <- Linger, TICK <- 45000
Mon(A) == (A /\ UNCHANGED bad) \/ (~ENABLED A /\ bad' = TRUE /\ UNCHANGED <<c, mx>>)
Mute   == UNCHANGED <<c, mx, bad>>
Rec(h) == hist' = Append(hist, h)
Ka(i)     == IF Reqs[i] = "c" THEN 0 ELSE 1
Status(i) == 200 + (i % 7)
E(y, e)   == [y EXCEPT !.ev = Append(@, e)]

(* kernel: fd, rx, eof, err, space, nosp, kfin, ready; sent and seen count units   *)
(* socket: op (descriptor there), cr, cw, trig, buf, asked, tm                      *)
(* connection: st, rb, id (of the request being answered), rem (-1: chunked), susp, *)
(* rt (zero timer); server: alive, d (disconnect handler), rwd (streaming handler)  *)
(* driver: mode, who, n, len, resp (answers begun: <<id, units of body, whole>>)     *)
Init ==
  /\ pc = "loop" /\ ctl = <<>>
  /\ x = [fd |-> TRUE, rx |-> <<>>, eof |-> FALSE, err |-> FALSE, space |-> Space0, nosp |-> FALSE, kfin |-> FALSE, ready |-> TRUE,
          sent |-> 0, next |-> 1, half |-> FALSE,
          op |-> TRUE, cr |-> FALSE, cw |-> FALSE, trig |-> FALSE, buf |-> 0, asked |-> FALSE, tm |-> -1,
          st |-> "RH", rb |-> <<>>, id |-> 0, rem |-> 0, susp |-> FALSE, rt |-> FALSE,
          alive |-> TRUE, d |-> FALSE, rwd |-> FALSE,
          mode |-> "", did |-> 0, n |-> 0, len |-> 0, resp |-> <<>>, parts |-> 0, open |-> TRUE, roomy |-> Space0 > 0,
          ev |-> << <<"max", 1>>, <<"acc", 0, 0, Space0 > 0, 1>> >>, now |-> 0, slp |-> 0]
  /\ cnt = [ops |-> 0, blk |-> 0, waits |-> 0, env |-> 0, h |-> 0]
  /\ hist = << <<"sp", Space0>> >> \o [i \in DOMAIN Reqs |-> <<"req", i, Reqs[i]>>] \o << <<"inc">> >>
  /\ bad = FALSE /\ c = [k \in {0} |-> M!Cold] /\ mx = 0

\* ---- the driver's look at the wire -------------------------------------------
Units(r) == 1 + r[2] + (IF r[3] /\ r[4] THEN 1 ELSE 0)      \* head, body, last chunk
RECURSIVE Wire(_, _)
Wire(y, left) ==      \* left: units on the wire belonging to y.resp
  IF y.resp = <<>> \/ left = 0 THEN y
  ELSE LET r == Head(y.resp)
           all == IF r[3] THEN r[4] /\ left >= Units(r) ELSE left >= 1 + r[5]
       IN IF all THEN Wire(E([y EXCEPT !.resp = Tail(@), !.parts = 0, !.sent = @ - Units(r)],
                             <<"wr", 0, r[1], r[6], 11, Ka(r[1]), r[2], TRUE, y.now>>), left - Units(r))
          ELSE LET n == IF left - 1 < r[2] THEN left - 1 ELSE r[2] IN
               IF left = y.parts THEN y ELSE E([y EXCEPT !.parts = left], <<"wp", 0, r[1], r[6], n>>)
Seen(y)  == Wire(y, y.sent)
OsState(y) ==
  LET z == Seen(y) room == y.fd /\ y.space > 0 IN
  IF y.fd # y.open \/ room # y.roomy THEN E([z EXCEPT !.open = y.fd, !.roomy = room], <<"os", 0, y.fd, room, y.now>>) ELSE z
\* ---- the buffered socket -----------------------------------------------------
IsOpen(y) == y.op \/ y.trig
SockClose(y, ev) == IF ~IsOpen(y) THEN y
                    ELSE [y EXCEPT !.op = FALSE, !.fd = FALSE, !.cr = FALSE, !.cw = FALSE, !.trig = ev, !.ready = FALSE]
BClose(y) == SockClose([y EXCEPT !.buf = 0, !.asked = FALSE, !.tm = -1], FALSE)
Break(y)  == SockClose([y EXCEPT !.err = FALSE, !.eof = TRUE, !.kfin = TRUE], TRUE)
Flush(y) ==
  LET m == IF y.space < y.buf THEN y.space ELSE y.buf IN
  IF y.buf = 0 \/ ~y.op \/ ~y.cw THEN y
  ELSE IF y.err THEN Break(y)
  ELSE [y EXCEPT !.space = @ - m, !.sent = @ + m, !.buf = @ - m, !.cw = (m = y.buf), !.nosp = @ \/ m < y.buf]
FlushFin(y) ==
  LET f == Flush(y) IN
  IF f.asked /\ f.buf = 0 /\ f.op /\ f.cw /\ f.tm = -1
  THEN LET z == E(OsState(f), <<"fin", 0, f.now>>) IN
       [z EXCEPT !.kfin = TRUE, !.cw = FALSE, !.tm = f.now + Linger, !.ready = @ \/ f.eof]
  ELSE f
Add(y, n)       == IF IsOpen(y) /\ ~y.asked THEN [y EXCEPT !.buf = @ + n] ELSE y
Write(y, n, lazy) == IF lazy \/ ~IsOpen(y) \/ y.asked THEN Add(y, n) ELSE FlushFin(Add(y, n))
Shutdown(y)     == IF ~IsOpen(y) \/ y.asked THEN y ELSE FlushFin([y EXCEPT !.asked = TRUE])
\* read everything that is there into the read buffer; got: something was read
Read(y) ==
  IF y.asked \/ ~y.op \/ ~y.cr THEN y
  ELSE IF y.rx # <<>> THEN [y EXCEPT !.rb = y.rx, !.rx = <<>>]
  ELSE IF y.err THEN Break(y)
  ELSE IF y.eof THEN SockClose(y, TRUE)
  ELSE [y EXCEPT !.cr = FALSE]
\* ---- the connection -----------------------------------------------------------
RECURSIVE Adv(_)
Adv(y) ==
  LET z == IF y.rb = <<>> THEN Read(y) ELSE y
      p == Head(z.rb) IN
  IF z.rb = <<>> THEN [y |-> z, r |-> FALSE]
  ELSE CASE z.st \in {"RH", "RB"} /\ Reqs[p[1]] = "m" -> [y |-> Shutdown([z EXCEPT !.rb = <<>>]), r |-> TRUE]
         [] z.st = "RH" /\ Reqs[p[1]] # "m" -> Adv([z EXCEPT !.rb = Tail(@), !.id = p[1], !.st = "RB"])
         [] z.st = "RB" /\ Reqs[p[1]] # "m" -> [y |-> [z EXCEPT !.rb = Tail(@), !.st = "RR"], r |-> TRUE]
         [] OTHER -> [y |-> z, r |-> FALSE]
Advance(y) == IF y.buf # 0 THEN [y |-> [y EXCEPT !.susp = TRUE], r |-> FALSE] ELSE Adv([y EXCEPT !.susp = FALSE])
Resume(y)  == LET a == Advance(y) IN IF a.r THEN [a.y EXCEPT !.rt = TRUE] ELSE a.y
\* the answer is complete
Finished(y) == LET z == IF Ka(y.id) = 0 THEN Shutdown([y EXCEPT !.rb = <<>>]) ELSE y IN
               Resume([z EXCEPT !.st = "RH", !.rwd = FALSE])
Begin(y, n, chunked, lazy) == Write([y EXCEPT !.st = "SB", !.rem = IF chunked THEN -1 ELSE n], 1, lazy)
Body(y, n, lazy) ==
  IF y.rem = -1 THEN IF n = 0 THEN y ELSE Write(y, n, lazy)
  ELSE LET z == Write([y EXCEPT !.rem = @ - n], n, lazy) IN IF z.rem = 0 THEN Finished(z) ELSE z
LastChunk(y, lazy) == Finished(Write(y, 1, lazy))
CClose(y) == [BClose(y) EXCEPT !.rb = <<>>, !.rt = FALSE, !.susp = FALSE, !.st = "RH"]
\* a whole answer of n units
Answer(y, n, st) ==
  LET z == [y EXCEPT !.resp = Append(@, <<y.did, n, FALSE, FALSE, n, st>>), !.mode = "", !.d = FALSE] IN
  IF ~IsOpen(y) THEN z ELSE Body(Begin(z, n, FALSE, TRUE), n, FALSE)
\* ---- control --------------------------------------------------------------------
Quiet  == x.ev = <<>>
Log    == /\ x.ev # <<>> /\ x' = [x EXCEPT !.ev = Tail(@)]
          /\ Mon(M!Step(Head(x.ev))) /\ UNCHANGED <<pc, ctl, cnt, hist>>
Top    == IF ctl = <<>> THEN "" ELSE ctl[Len(ctl)]
Pop    == SubSeq(ctl, 1, Len(ctl) - 1)
Go(y, p, s) == x' = y /\ pc' = p /\ ctl' = s
Silent == Mute /\ UNCHANGED <<cnt, hist>>
Block  == Rec(<<"H">>) /\ cnt' = [cnt EXCEPT !.h = @ + 1, !.blk = 0] /\ Mute
MayRun == cnt.h < MaxHandlers
\* ServerConnection::sock_handler
Conn(y) ==
  IF ~IsOpen(y) THEN Go(CClose(y), "run", <<"och">>)
  ELSE IF y.st = "SB" THEN Go(y, "run", <<"och">>)
  ELSE IF y.st = "RR" THEN Go(y, "run", <<"och">>)
  ELSE LET a == Advance(y) IN IF a.r THEN Go(a.y, "run", <<"och">>) ELSE Go(a.y, "loop", <<>>)
SockHandler ==
  LET t == [x EXCEPT !.trig = FALSE]
      f == FlushFin(t)
      g == IF f.asked /\ f.buf = 0
           THEN (IF ~f.op \/ ~f.cr THEN f
                 ELSE IF f.rx # <<>> THEN [f EXCEPT !.rx = <<>>]
                 ELSE IF f.err THEN Break(f) ELSE IF f.eof THEN SockClose(f, TRUE) ELSE [f EXCEPT !.cr = FALSE])
           ELSE f IN
  /\ Quiet /\ pc = "loop" /\ x.trig
  /\ Conn(IF t.op THEN g ELSE BClose(t)) /\ Silent
Resumed == /\ Quiet /\ pc = "loop" /\ ~x.trig /\ x.rt
           /\ (IF x.op /\ x.st # "SB" THEN Conn([x EXCEPT !.rt = FALSE]) ELSE Go([x EXCEPT !.rt = FALSE], "loop", <<>>)) /\ Silent
Lingered == /\ Quiet /\ pc = "loop" /\ ~x.trig /\ ~x.rt /\ x.tm # -1 /\ x.now >= x.tm
            /\ Conn(BClose(x)) /\ Silent
\* Server::on_client_handler
Handler ==
  /\ Quiet /\ pc = "run" /\ Top = "och"
  /\ IF IsOpen(x) THEN Go(x, "run", IF x.rwd THEN <<"rn", "call">> ELSE <<"rn">>)
     ELSE Go(x, "run", (IF x.rwd THEN <<"erase", "call">> ELSE <<"erase">>) \o (IF x.d THEN <<"dc">> ELSE <<>>))
  /\ Silent
Gone ==
  /\ Quiet /\ pc = "run" /\ Top = "dc" /\ MayRun
  /\ Go(E([x EXCEPT !.mode = "", !.did = 0], <<"dcall", 0>>), "app", Append(Pop, "d")) /\ Block
Erase ==
  /\ Quiet /\ pc = "run" /\ Top = "erase"
  /\ Go([x EXCEPT !.alive = FALSE], "loop", <<>>) /\ Silent
\* Client::call_rwd_handler
Call ==
  LET y == [x EXCEPT !.rwd = FALSE] o == IsOpen(x) IN
  /\ Quiet /\ pc = "run" /\ Top = "call"
  /\ IF o THEN MayRun /\ Go(E(y, <<"hs", 0, x.did, TRUE>>), "app", Append(Pop, "strm")) /\ Block
     ELSE Go(E([Seen(y) EXCEPT !.mode = ""], <<"hs", 0, x.did, FALSE>>), "run", Pop) /\ Silent
ReadNext ==
  /\ Quiet /\ pc = "run" /\ Top = "rn"
  /\ IF x.st = "RR"
     THEN /\ MayRun
          /\ LET a == Advance([x EXCEPT !.rt = FALSE, !.st = "SH"]).y
                 z == OsState([a EXCEPT !.mode = "req", !.did = x.id]) IN
             Go(E(z, <<"hreq", 0, x.id, 11, Ka(x.id), 0, TRUE>>), "app", Append(ctl, "req"))
          /\ Block
     ELSE Go(x, "loop", <<>>) /\ Silent
\* ---- the application --------------------------------------------------------------
App   == Quiet /\ pc \in {"app", "wait"} /\ Top # "call" /\ cnt.ops < MaxOps /\ cnt.blk < MaxBlock
Used(k, h) == /\ App /\ k \in Kinds /\ cnt' = [cnt EXCEPT !.ops = @ + 1, !.blk = @ + 1] /\ Rec(h) /\ Mute /\ UNCHANGED pc
Me    == IF pc = "wait" THEN 0 ELSE -1        \* which connection the script names
Ok(n) == /\ Used("ok", <<"ok", Me, n>>) /\ x.mode \in {"req", "post"}
         /\ x' = Answer(E(x, <<"ans", 0, Status(x.did), n>>), n, Status(x.did)) /\ UNCHANGED ctl
Str(n) ==     \* n = -1: chunked
  LET y == E(x, <<"sbeg", 0, Status(x.did), n>>)
      z == [y EXCEPT !.mode = "stream", !.n = 0, !.len = n, !.d = FALSE, !.rwd = TRUE,
                     !.resp = Append(@, <<x.did, 0, n = -1, FALSE, n, Status(x.did)>>)] IN
  /\ Used("str", IF n = -1 THEN <<"strc", Me>> ELSE <<"str", Me, n>>) /\ x.mode \in {"req", "post"} /\ pc = "app"
  /\ x' = Begin(z, n, n = -1, FALSE) /\ ctl' = Append(ctl, "call")
\* (the handler is called at once: the block that begins the stream ends here for a while)
Nested == /\ Quiet /\ pc = "app" /\ Top = "call" /\ MayRun
          /\ Go(E([x EXCEPT !.rwd = FALSE], <<"hs", 0, x.did, IsOpen(x)>>), "app", Append(Pop, "strm")) /\ Block
Post  == /\ Used("post", <<"post", -1>>) /\ pc = "app" /\ Top = "req" /\ x.mode = "req"
         /\ x' = E([x EXCEPT !.mode = "post", !.d = TRUE], <<"post", 0>>) /\ UNCHANGED ctl
\* r: the answer the units belong to is the last one begun
Grow(y, n, whole) == LET q == y.resp[Len(y.resp)] IN [y EXCEPT !.resp[Len(y.resp)] = [q EXCEPT ![2] = @ + n, ![4] = whole]]
PutB(n, lazy) ==
  LET m == IF x.len >= 0 /\ x.len - x.n < n THEN x.len - x.n ELSE n
      fin == x.len >= 0 /\ x.n + m = x.len
      y == E([Grow(x, m, FALSE) EXCEPT !.n = @ + m, !.mode = IF fin THEN "" ELSE @], <<"sput", 0, m, fin, lazy>>) IN
  /\ Used("put", <<IF lazy THEN "putb" ELSE "put", Me, n>>) /\ x.mode = "stream" /\ x.resp # <<>>
  /\ x' = Body(y, m, lazy) /\ UNCHANGED ctl
LastB(lazy) ==
  LET y == E([Grow(x, 0, TRUE) EXCEPT !.mode = ""], <<"slast", 0, lazy>>) IN
  /\ Used("put", <<IF lazy THEN "lastb" ELSE "last", Me>>) /\ x.mode = "stream" /\ x.len = -1 /\ x.resp # <<>>
  /\ x' = LastChunk(y, lazy) /\ UNCHANGED ctl
\* an exception leaves the request handler (the rest of the block is not run)
Throw ==
  LET owes == x.mode \in {"req", "post"}
      y == E(x, <<"thr", 0, 422, TRUE>>) IN
  /\ App /\ "thr" \in Kinds /\ pc = "app" /\ Top = "req"
  /\ cnt' = [cnt EXCEPT !.ops = @ + 1, !.blk = MaxBlock] /\ Rec(<<"thr">>) /\ Mute
  /\ x' = (IF owes THEN (IF x.st = "SH" THEN Answer([y EXCEPT !.resp = @], 0, 422) ELSE [y EXCEPT !.mode = ""]) ELSE y)
  /\ ctl' = Pop /\ pc' = "run"
Return ==
  /\ Quiet /\ pc = "app" /\ Top \in {"req", "strm", "d"}
  /\ LET y == IF Top = "req" /\ x.mode = "req"
              THEN Answer(E(x, <<"ans", 0, Status(x.did), 3>>), 3, Status(x.did))
              ELSE IF Top = "strm" /\ ~x.rwd /\ x.st = "SB" THEN [x EXCEPT !.rwd = TRUE]
              ELSE x
         nested == Len(ctl) > 1 /\ ctl[Len(ctl) - 1] \in {"req", "strm", "d"} IN
     /\ Go(E(y, <<"ret">>), IF nested THEN "app" ELSE "run", Pop)
     /\ cnt' = IF nested THEN [cnt EXCEPT !.blk = MaxBlock] ELSE cnt      \* (a script cannot go on with the outer block)
  /\ Mute /\ UNCHANGED hist
\* ---- the loop and the kernel ----------------------------------------------------
LevIn(y)  == y.rx # <<>> \/ y.eof \/ y.err
LevOut(y) == y.space > 0 \/ y.kfin \/ y.err
Collect(y) == IF ~y.ready \/ ~y.fd \/ ~(LevIn(y) \/ LevOut(y)) THEN [y EXCEPT !.ready = FALSE]
              ELSE [y EXCEPT !.ready = FALSE, !.cr = @ \/ LevIn(y), !.cw = @ \/ LevOut(y), !.trig = TRUE]
Idle == Quiet /\ pc = "loop" /\ ~x.trig /\ ~x.rt /\ (x.tm # -1 => x.now < x.tm)
Step == Idle /\ x.ready /\ x' = Collect(x) /\ UNCHANGED <<pc, ctl>> /\ Silent
GoSleep ==
  /\ Idle /\ ~x.ready /\ cnt.waits < MaxWaits
  /\ LET to == IF x.tm = -1 THEN 1800000 ELSE 1 + x.tm - x.now
         y == IF x.fd \/ x.open THEN OsState(x) ELSE x IN
     x' = E([y EXCEPT !.slp = to], <<"sleep", x.now, to, 0, IF x.fd THEN 1 ELSE 0>>)
  /\ pc' = "wait" /\ cnt' = [cnt EXCEPT !.waits = @ + 1, !.blk = 0] /\ Rec(<<"E">>) /\ Mute /\ UNCHANGED ctl
WakeUp ==
  /\ Quiet /\ pc = "wait" /\ pc' = "loop" /\ (x.ready \/ x.tm # -1 \/ cnt.blk > 0)    \* (after the application did something: at the latest by time)
  /\ x' = Collect([x EXCEPT !.now = @ + (IF x.ready THEN 1 ELSE x.slp)])
  /\ UNCHANGED ctl /\ Silent
Env(h, y) == /\ Quiet /\ pc = "wait" /\ cnt.env < MaxEnv /\ x.fd /\ cnt' = [cnt EXCEPT !.env = @ + 1]
             /\ Rec(h) /\ Mute /\ x' = y /\ UNCHANGED <<pc, ctl>>
Talks == ~x.eof /\ ~x.err
\* the client sends half or all of the next thing, or everything
Piece(i, all) == IF Reqs[i] = "m" \/ (all /\ x.half) THEN << <<i, 2>> >> ELSE IF all THEN << <<i, 1>>, <<i, 2>> >> ELSE << <<i, 1>> >>
Item(i) == IF Reqs[i] = "m" THEN <<"mal">> ELSE <<"rq", i, 11, Ka(i), 0, 0>>
Kind(i) == IF Reqs[i] = "m" THEN "mal" ELSE "rq"
Send(all) ==
  LET i == x.next y == [x EXCEPT !.rx = @ \o Piece(i, all), !.ready = TRUE] IN
  /\ Talks /\ i <= Len(Reqs) /\ (all \/ (~x.half /\ Reqs[i] # "m"))
  /\ Env(<<"send", i, all>>,
         IF all THEN [(IF x.half THEN E(y, <<"it", 0, Item(i)>>) ELSE E(E(y, <<"bg", 0, Kind(i)>>), <<"it", 0, Item(i)>>)) EXCEPT !.next = i + 1, !.half = FALSE]
         ELSE [E(y, <<"bg", 0, Kind(i)>>) EXCEPT !.half = TRUE])
PEof   == Talks /\ Env(<<"peof", 0>>, [E(x, <<"peof", 0>>) EXCEPT !.eof = TRUE, !.ready = TRUE])
PErr   == Talks /\ Env(<<"perr", 0>>, [E(x, <<"perr", 0>>) EXCEPT !.err = TRUE, !.ready = TRUE])
More(n) == Env(<<"space", 0, n>>, [x EXCEPT !.space = @ + n, !.nosp = FALSE, !.ready = @ \/ x.nosp])
Age(n) == x.tm # -1 /\ Env(<<"age", n>>, [x EXCEPT !.now = @ + n])
Next ==
  \/ Log \/ SockHandler \/ Resumed \/ Lingered \/ Handler \/ Gone \/ Erase \/ Call \/ Nested \/ ReadNext \/ Return \/ Post \/ Throw
  \/ \E n \in OkN : Ok(n)
  \/ \E n \in StrN : Str(n)
  \/ \E n \in PutN, z \in BOOLEAN : PutB(n, z)
  \/ \E z \in BOOLEAN : LastB(z) \/ Send(z)
  \/ Step \/ GoSleep \/ WakeUp \/ PEof \/ PErr
  \/ \E n \in SpaceN : More(n)
  \/ \E n \in AgeN : Age(n)
Spec == Init /\ [][Next]_<<core, hist, c, mx, bad>>
\* ---- what TLC checks ----------------------------------------------------------------
Accepted == ~bad
\* (the monitor's own Settled is part of every sleep event)
Sane == /\ x.buf > 0 => IsOpen(x)
        /\ x.st = "RR" => x.id > 0
        /\ (~x.alive) => (~x.fd /\ x.mode = "")
\* ---- instances ---------------------------------------------------------------------
R1 == <<"k", "c">>
R2 == <<"k", "k", "m">>
R3 == <<"c", "k">>
S1 == {-1, 2}
S2 == {-1, 0, 2}
S3 == {-1, 1}
Script == PrintT(ToJson(hist'))
=============================================================================
