----------------------------- MODULE BufTcpImpl -----------------------------
(* BufferedTCPSocket as it is designed, on one loop and an edge triggered      *)
(* kernel: the buffer, the flush which empties it, the FIN that is sent once   *)
(* nothing is left, the discarding of input after it and the timer that ends   *)
(* the connection.  The contract BufTcp runs in lockstep as a monitor; the     *)
(* transitions of the bounded graph are printed as scripts and replayed in the *)
(* real library (hist is hidden by the VIEW).                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Conns, PutN, Hows, PeerN, SpaceN, Space0, AgeN, Linger, MaxOps, MaxBlock, MaxWaits, MaxEnv, MaxHandlers, Kinds

VARIABLES pc,     \* "app", "loop", "end" (second half of the socket handler), "sleep", "wait"
          w,      \* the object and the kernel: alive, k, cr, cw, trig, buf, asked, tm, kc, ready
          fin,    \* shutdown() in progress
          now, slp,
          cnt, hist, bk, bc, bad
core == <<pc, w, fin, now, slp, cnt>>
cv   == <<bk, bc>>
view == <<core, bk, bc, bad>>
M == INSTANCE BufTcp WITH B <- {0}, LINGER <- Linger
Zeros(n) == [i \in 1..n |-> 0]
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
In(s, x)      == \E i \in DOMAIN s : s[i] = x
Push(s, x)    == IF In(s, x) THEN s ELSE Append(s, x)
Mon(A) == (A /\ UNCHANGED bad) \/ (~ENABLED A /\ bad' = TRUE /\ UNCHANGED cv)
Mute   == UNCHANGED <<bk, bc, bad>>
Rec(x) == hist' = Append(hist, x)

NoObj == [alive |-> TRUE, k |-> 0, cr |-> FALSE, cw |-> FALSE, trig |-> FALSE, buf |-> 0, asked |-> FALSE, tm |-> -1,
          kc |-> <<>>, ready |-> <<>>]
Init ==
  /\ pc = "app" /\ w = NoObj /\ fin = FALSE /\ now = 0 /\ slp = 0
  /\ cnt = [ops |-> 0, blk |-> 0, waits |-> 0, env |-> 0, h |-> 0]
  /\ hist = <<<<"sp", Space0>>>> /\ bad = FALSE
  /\ bk = [s \in {0} |-> M!Fresh] /\ bc = <<>>

\* ---- the kernel and the plain socket beneath --------------------------------
IsOpen(x) == x.k # 0 \/ x.trig
Level(c)  == ~c.conn /\ (c.rx > 0 \/ c.eof \/ c.space > 0 \/ c.fin \/ c.err)
LevIn(c)  == ~c.conn /\ (c.rx > 0 \/ c.eof \/ c.err)
LevOut(c) == ~c.conn /\ (c.space > 0 \/ c.fin \/ c.err)
Edge(q, k, c) == IF c.reg /\ Level(c) THEN Push(q, k) ELSE q
SockClose(x, ev) ==
  IF ~IsOpen(x) THEN x
  ELSE [x EXCEPT !.k = 0, !.cr = FALSE, !.cw = FALSE, !.trig = ev,
                 !.kc = IF x.k = 0 THEN @ ELSE [@ EXCEPT ![x.k].reg = FALSE], !.ready = Without(@, x.k)]
Broken(x) == [x EXCEPT !.kc[x.k] = [@ EXCEPT !.err = FALSE, !.eof = TRUE, !.fin = TRUE]]
Again(x)  == [x EXCEPT !.cw = FALSE, !.kc[x.k].nosp = TRUE]
\* the system call: what becomes of everything, and how many bytes went
Wr(x, n) ==
  LET c == x.kc[x.k] m == IF c.space < n THEN c.space ELSE n IN
  IF x.k = 0 \/ ~x.cw THEN [x |-> x, n |-> 0]
  ELSE IF c.err THEN [x |-> SockClose(Broken(x), TRUE), n |-> 0]
  ELSE IF c.conn THEN [x |-> Again(x), n |-> 0]
  ELSE IF c.fin THEN [x |-> SockClose(x, TRUE), n |-> 0]
  ELSE IF c.space = 0 THEN [x |-> Again(x), n |-> 0]
  ELSE [x |-> [x EXCEPT !.kc[x.k] = [@ EXCEPT !.space = @ - m, !.sent = @ + m, !.nosp = @ \/ (m < n)]], n |-> m]
Rd(x, n) ==
  LET c == x.kc[x.k] m == IF c.rx < n THEN c.rx ELSE n IN
  IF x.k = 0 \/ ~x.cr THEN [x |-> x, n |-> 0]
  ELSE IF c.conn THEN [x |-> [x EXCEPT !.cr = FALSE], n |-> 0]
  ELSE IF c.rx > 0 THEN [x |-> [x EXCEPT !.kc[x.k].rx = @ - m], n |-> m]
  ELSE IF c.err THEN [x |-> SockClose(Broken(x), TRUE), n |-> 0]
  ELSE IF c.eof THEN [x |-> SockClose(x, TRUE), n |-> 0]
  ELSE [x |-> [x EXCEPT !.cr = FALSE], n |-> 0]
\* ---- the buffered socket ----------------------------------------------------
RECURSIVE Flush(_)
Flush(x) == IF x.buf = 0 THEN x
            ELSE LET r == Wr(x, x.buf) IN IF r.n = 0 THEN r.x ELSE Flush([r.x EXCEPT !.buf = @ - r.n])
WantFin(x) == x.asked /\ x.buf = 0 /\ x.cw /\ x.k # 0 /\ x.tm = -1
BClose(x, ev) == SockClose([x EXCEPT !.tm = -1, !.buf = 0, !.asked = FALSE], ev)

Op(kind, x) == /\ pc = "app" /\ ~fin /\ kind \in Kinds /\ cnt.ops < MaxOps /\ cnt.blk < MaxBlock
               /\ cnt' = [cnt EXCEPT !.ops = @ + 1, !.blk = @ + 1]
               /\ Rec(x) /\ UNCHANGED <<pc, now, slp>>
New == /\ Op("del", <<"new", 0>>) /\ ~w.alive
       /\ w' = [w EXCEPT !.alive = TRUE] /\ Mon(M!New(0)) /\ UNCHANGED fin
Del == /\ Op("del", <<"del", 0>>) /\ w.alive
       /\ w' = [BClose(w, FALSE) EXCEPT !.alive = FALSE] /\ Mon(M!Del(0)) /\ UNCHANGED fin
Connect(how) ==
  LET z == BClose(w, FALSE)
      k == Len(w.kc) + 1
      c == [rx |-> 0, eof |-> FALSE, err |-> FALSE, conn |-> how # "imm", space |-> Space0, sent |-> 0,
            fin |-> FALSE, nosp |-> FALSE, reg |-> TRUE] IN
  /\ Op("conn", IF how = "" THEN <<"conn", 0>> ELSE <<"conn", 0, how>>) /\ w.alive /\ UNCHANGED fin
  /\ IF how = "fail" THEN w' = z /\ Mon(M!Connect(0, FALSE, TRUE, 0, FALSE, 0))
     ELSE /\ k <= Conns
          /\ w' = [z EXCEPT !.kc = Append(@, c), !.ready = Edge(@, k, c), !.k = k,
                            !.cr = how = "imm", !.cw = how = "imm", !.trig = how = "imm"]
          /\ Mon(M!Connect(0, TRUE, FALSE, k, how = "imm", Space0))
Close(ev) == /\ Op("close", <<IF ev THEN "closee" ELSE "close", 0>>) /\ w.alive
             /\ w' = BClose(w, ev) /\ Mon(M!Close(0, ev)) /\ UNCHANGED fin
Read(n) ==
  LET r == IF w.asked THEN [x |-> w, n |-> 0] ELSE Rd(w, n) IN
  /\ Op("rd", <<"rd", 0, n>>) /\ w.alive /\ w' = r.x /\ Mon(M!Read(0, n, Zeros(r.n))) /\ UNCHANGED fin
Put(n, how) ==
  LET ok == IsOpen(w) /\ ~w.asked
      d  == IF how = "w" /\ w.buf = 0 THEN Wr(w, n) ELSE [x |-> w, n |-> 0]
      q  == IF IsOpen(d.x) THEN [d.x EXCEPT !.buf = @ + n - d.n] ELSE d.x IN
  /\ Op("put", <<"put", 0, n, how>>) /\ w.alive /\ UNCHANGED fin
  /\ w' = IF ~ok THEN w ELSE IF how = "b" THEN q ELSE Flush(q)
  /\ Mon(M!Put(0, Zeros(n), how = "b"))
Some(n) ==
  LET r == IF w.asked \/ w.buf > 0 THEN [x |-> w, n |-> 0] ELSE Wr(w, n) IN
  /\ Op("some", <<"some", 0, n>>) /\ w.alive /\ UNCHANGED fin
  /\ w' = r.x /\ Mon(M!PutSome(0, Zeros(n), r.n, w.buf))
Shut ==
  LET x == Flush([w EXCEPT !.asked = TRUE]) IN
  /\ Op("sd", <<"sd", 0>>) /\ w.alive
  /\ IF IsOpen(w) /\ ~w.asked THEN w' = x /\ fin' = WantFin(x) ELSE UNCHANGED <<w, fin>>
  /\ Mon(M!Shutdown(0))
OsFin ==
  LET c == w.kc[w.k] d == [c EXCEPT !.fin = TRUE] IN
  /\ fin /\ fin' = FALSE
  /\ w' = [w EXCEPT !.kc[w.k] = d, !.ready = IF c.eof THEN Edge(@, w.k, d) ELSE @, !.cw = FALSE, !.tm = now + Linger]
  /\ Mon(M!OsFin(w.k, c.sent, now)) /\ UNCHANGED <<pc, now, slp, cnt, hist>>
Return == /\ pc = "app" /\ ~fin /\ pc' = "loop" /\ UNCHANGED <<w, fin, now, slp, cnt, hist>> /\ Mute
\* the handler of the socket: send what can go, end the stream, discard, tell the user
SockHandler ==
  LET x == [w EXCEPT !.trig = FALSE] f == Flush(x) IN
  /\ pc = "loop" /\ w.trig /\ cnt.h < MaxHandlers
  /\ pc' = "end"
  /\ IF x.k # 0 THEN w' = f /\ fin' = WantFin(f) ELSE w' = BClose(x, FALSE) /\ fin' = FALSE
  /\ UNCHANGED <<now, slp, cnt, hist>> /\ Mute
User(x) == /\ pc' = "app" /\ Rec(<<"H">>) /\ cnt' = [cnt EXCEPT !.h = @ + 1, !.blk = 0]
           /\ Mon(M!Handler(0, IsOpen(x), now)) /\ UNCHANGED <<now, slp, fin>>
Tell ==
  LET x == IF w.asked /\ w.buf = 0 THEN Rd(w, 4096).x ELSE w IN
  /\ pc = "end" /\ ~fin /\ w' = x /\ User(x)
Timer ==
  /\ pc = "loop" /\ ~w.trig /\ w.tm # -1 /\ now >= w.tm /\ cnt.h < MaxHandlers
  /\ w' = BClose(w, FALSE) /\ User(BClose(w, FALSE))
Idle == pc = "loop" /\ ~w.trig /\ (w.tm # -1 => now < w.tm)
Collect(x) ==
  LET F[i \in 0..Len(x.ready)] ==
        IF i = 0 THEN [x EXCEPT !.ready = <<>>]
        ELSE LET p == F[i-1] c == x.kc[x.ready[i]] IN
             IF ~Level(c) THEN p ELSE [p EXCEPT !.cr = @ \/ LevIn(c), !.cw = @ \/ LevOut(c), !.trig = TRUE]
  IN F[Len(x.ready)]
Step == Idle /\ w.ready # <<>> /\ w' = Collect(w) /\ UNCHANGED <<pc, fin, now, slp, cnt, hist>> /\ Mute
GoSleep ==
  /\ Idle /\ w.ready = <<>> /\ cnt.waits < MaxWaits
  /\ pc' = "sleep" /\ cnt' = [cnt EXCEPT !.waits = @ + 1] /\ Rec(<<"E">>)
  /\ slp' = IF w.tm = -1 THEN 1800000 ELSE 1 + w.tm - now
  /\ bc' = [k \in DOMAIN bc |-> [bc[k] EXCEPT !.os = Zeros(w.kc[k].sent), !.osopen = w.kc[k].reg]]
  /\ UNCHANGED <<w, fin, now, bk, bad>>
Asleep == pc = "sleep" /\ pc' = "wait" /\ UNCHANGED <<w, fin, now, slp, cnt, hist>> /\ Mute
WakeUp ==
  /\ pc = "wait" /\ pc' = "loop" /\ (w.ready # <<>> \/ w.tm # -1)
  /\ now' = now + (IF w.ready # <<>> THEN 1 ELSE slp)
  /\ w' = Collect(w) /\ UNCHANGED <<fin, slp, cnt, hist>> /\ Mute
Env(x) == /\ pc = "wait" /\ cnt.env < MaxEnv /\ cnt' = [cnt EXCEPT !.env = @ + 1]
          /\ Rec(x) /\ UNCHANGED <<pc, fin, slp>>
Age(n)    == Env(<<"age", n>>) /\ w.tm # -1 /\ now' = now + n /\ UNCHANGED w /\ Mute
Talks(k)  == w.kc[k].reg /\ ~w.kc[k].conn /\ ~w.kc[k].eof /\ ~w.kc[k].err
Chg(k, c) == w' = [w EXCEPT !.kc[k] = c, !.ready = Edge(@, k, c)] /\ UNCHANGED now
PSend(k, n) == Env(<<"psend", k - 1, n>>) /\ Talks(k) /\ Chg(k, [w.kc[k] EXCEPT !.rx = @ + n]) /\ Mon(M!PeerSend(k, Zeros(n)))
PEof(k)  == Env(<<"peof", k - 1>>) /\ Talks(k) /\ Chg(k, [w.kc[k] EXCEPT !.eof = TRUE]) /\ Mon(M!PeerEof(k, w.kc[k].rx))
PErr(k)  == Env(<<"perr", k - 1>>) /\ Talks(k) /\ Chg(k, [w.kc[k] EXCEPT !.err = TRUE]) /\ Mon(M!PeerErr(k, w.kc[k].rx))
COk(k)   == Env(<<"cok", k - 1>>) /\ w.kc[k].reg /\ w.kc[k].conn /\ Chg(k, [w.kc[k] EXCEPT !.conn = FALSE]) /\ Mon(M!Established(k))
CFail(k) == Env(<<"cfail", k - 1>>) /\ w.kc[k].reg /\ w.kc[k].conn /\ Chg(k, [w.kc[k] EXCEPT !.conn = FALSE, !.err = TRUE]) /\ Mon(M!Refused(k))
AddSpace(k, n) ==
  LET c == [w.kc[k] EXCEPT !.space = @ + n, !.nosp = FALSE] IN
  /\ Env(<<"space", k - 1, n>>) /\ w.kc[k].reg /\ UNCHANGED now
  /\ w' = [w EXCEPT !.kc[k] = c, !.ready = IF w.kc[k].nosp THEN Edge(@, k, c) ELSE @]
  /\ Mon(M!Space(k, n))
Next ==
  \/ New \/ Del \/ Close(TRUE) \/ Close(FALSE) \/ Shut \/ Read(1)
  \/ \E how \in {"", "imm", "fail"} : Connect(how)
  \/ \E n \in PutN : Some(n) \/ \E how \in Hows : Put(n, how)
  \/ OsFin \/ Return \/ SockHandler \/ Tell \/ Timer \/ Step \/ GoSleep \/ Asleep \/ WakeUp
  \/ \E n \in AgeN : Age(n)
  \/ \E k \in DOMAIN w.kc : \/ PEof(k) \/ PErr(k) \/ COk(k) \/ CFail(k)
                            \/ \E n \in PeerN : PSend(k, n)
                            \/ \E n \in SpaceN : AddSpace(k, n)
Spec == Init /\ [][Next]_<<core, hist, bk, bc, bad>>
\* ---- what TLC checks --------------------------------------------------------
Accepted == ~bad
Agrees == (pc \in {"app", "wait"} /\ ~fin /\ w.alive) =>
  /\ IsOpen(w) = M!IsOpen(0)
  /\ IF M!Live(0) THEN w.buf = Len(M!Cn(0).tx) - w.kc[bk[0].k].sent
     ELSE ~bk[0].pend => w.buf = 0
Ordered == \A k \in DOMAIN bc : w.kc[k].sent <= Len(bc[k].tx)
Rested  == pc = "sleep" => M!SleepOK(now, slp)
Script  == PrintT(ToJson(hist'))
=============================================================================
