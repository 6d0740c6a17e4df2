------------------------------- MODULE TcpImpl -------------------------------
(* TCPSocket as it is designed, on one loop and on an edge triggered kernel:   *)
(* the two readiness flags of a socket, the list of triggered sockets, the     *)
(* kernel's ready list.  The contract Tcp runs in lockstep as a monitor; every *)
(* transition of the bounded graph is printed as a script that is replayed in  *)
(* the real library (hist is hidden by the VIEW).                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Socks, Conns, RdN, WrN, PeerN, SpaceN, Space0, MaxOps, MaxBlock, MaxWaits, MaxEnv, MaxHandlers, Kinds

VARIABLES pc,     \* "app" (configuration or handler), "loop", "sleep", "wait"
          obj,    \* socket -> [alive, k, cr, cw]; k = 0: no descriptor
          trig,   \* triggered sockets
          kc,     \* connections inside the kernel, in order of creation
          ready,  \* kernel: connections with an undelivered edge
          fin,    \* shutdown() in progress on this connection
          cnt,    \* operations, of this block, waits, outside events, handler calls
          hist, sk, cn, bad
core == <<pc, obj, trig, kc, ready, fin, cnt>>
cv   == <<sk, cn>>
view == <<core, sk, cn, bad>>
M == INSTANCE Tcp WITH S <- Socks
Zeros(n) == [i \in 1..n |-> 0]
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
In(s, x)      == \E i \in DOMAIN s : s[i] = x
Push(s, x)    == IF In(s, x) THEN s ELSE Append(s, x)
Mon(A) == (A /\ UNCHANGED bad) \/ (~ENABLED A /\ bad' = TRUE /\ UNCHANGED cv)
Mute   == UNCHANGED <<sk, cn, bad>>
Rec(x) == hist' = Append(hist, x)

NoFd == [alive |-> TRUE, k |-> 0, cr |-> FALSE, cw |-> FALSE]
Init ==
  /\ pc = "app" /\ obj = [s \in Socks |-> NoFd] /\ trig = <<>> /\ kc = <<>> /\ ready = <<>> /\ fin = 0
  /\ cnt = [ops |-> 0, blk |-> 0, waits |-> 0, env |-> 0, h |-> 0]
  /\ hist = <<<<"sp", Space0>>>> /\ bad = FALSE
  /\ sk = [s \in Socks |-> M!Fresh] /\ cn = <<>>

IsOpen(s) == obj[s].k # 0 \/ In(trig, s)
Level(c)  == ~c.conn /\ (c.rx > 0 \/ c.eof \/ c.space > 0 \/ c.fin \/ c.err)
LevIn(c)  == ~c.conn /\ (c.rx > 0 \/ c.eof \/ c.err)
LevOut(c) == ~c.conn /\ (c.space > 0 \/ c.fin \/ c.err)
Edge(q, k, c) == IF c.reg /\ Level(c) THEN Push(q, k) ELSE q
Cnt(op, r) == cnt' = [cnt EXCEPT !.ops = @ + 1, !.blk = @ + 1]
Op(kind, x) == /\ pc = "app" /\ fin = 0 /\ kind \in Kinds /\ cnt.ops < MaxOps /\ cnt.blk < MaxBlock
               /\ Cnt(0, 0) /\ Rec(x) /\ pc' = pc
\* close(with event) of an open socket: what becomes of object, list, kernel
Closed(s, ev, o) == [o EXCEPT ![s] = [@ EXCEPT !.k = 0, !.cr = ev, !.cw = FALSE]]
TrigC(s, ev)     == IF ev THEN Append(Without(trig, s), s) ELSE Without(trig, s)
KcC(k)           == IF k = 0 THEN kc ELSE [kc EXCEPT ![k].reg = FALSE]
RdyC(k)          == Without(ready, k)

New(s) ==
  /\ Op("del", <<"new", s>>) /\ ~obj[s].alive
  /\ obj' = [obj EXCEPT ![s] = NoFd] /\ Mon(M!New(s)) /\ UNCHANGED <<trig, kc, ready, fin>>
Del(s) ==
  /\ Op("del", <<"del", s>>) /\ obj[s].alive
  /\ obj' = [obj EXCEPT ![s] = [NoFd EXCEPT !.alive = FALSE]]
  /\ trig' = Without(trig, s) /\ kc' = KcC(obj[s].k) /\ ready' = RdyC(obj[s].k)
  /\ Mon(M!Del(s)) /\ UNCHANGED fin
Connect(s, how) ==
  LET k0 == obj[s].k k == Len(kc) + 1
      c  == [rx |-> 0, eof |-> FALSE, err |-> FALSE, conn |-> how # "imm", space |-> Space0, sent |-> 0,
             fin |-> FALSE, nosp |-> FALSE, reg |-> TRUE] IN
  /\ Op("conn", IF how = "" THEN <<"conn", s>> ELSE <<"conn", s, how>>) /\ obj[s].alive
  /\ UNCHANGED fin
  /\ IF how = "fail"
     THEN /\ obj' = IF IsOpen(s) THEN Closed(s, FALSE, obj) ELSE obj
          /\ trig' = Without(trig, s) /\ kc' = KcC(k0) /\ ready' = RdyC(k0)
          /\ Mon(M!Connect(s, FALSE, TRUE, 0, FALSE, 0))
     ELSE /\ k <= Conns
          /\ kc' = Append(KcC(k0), c)
          /\ ready' = Edge(RdyC(k0), k, c)
          /\ trig' = IF how = "imm" THEN Append(Without(trig, s), s) ELSE Without(trig, s)
          /\ obj' = [obj EXCEPT ![s] = [alive |-> TRUE, k |-> k, cr |-> how = "imm", cw |-> how = "imm"]]
          /\ Mon(M!Connect(s, TRUE, FALSE, k, how = "imm", Space0))
Close(s, ev) ==
  /\ Op("close", <<IF ev THEN "closee" ELSE "close", s>>) /\ obj[s].alive
  /\ Mon(M!Close(s, ev)) /\ UNCHANGED fin
  /\ IF ~IsOpen(s) THEN UNCHANGED <<obj, trig, kc, ready>>
     ELSE /\ obj' = Closed(s, ev, obj) /\ trig' = TrigC(s, ev)
          /\ kc' = KcC(obj[s].k) /\ ready' = RdyC(obj[s].k)
\* an operation of the kernel that fails: the socket closes itself and a close event is due
SelfClose(s, k, c) ==
  /\ obj' = Closed(s, TRUE, obj) /\ trig' = TrigC(s, TRUE)
  /\ kc' = [kc EXCEPT ![k] = [c EXCEPT !.reg = FALSE]] /\ ready' = RdyC(k)
Broken(c) == [c EXCEPT !.err = FALSE, !.eof = TRUE, !.fin = TRUE]
Read(s, n) ==
  LET k == obj[s].k c == kc[k] m == IF c.rx < n THEN c.rx ELSE n IN
  /\ Op("rd", <<"rd", s, n>>) /\ obj[s].alive /\ UNCHANGED fin
  /\ IF k = 0 \/ ~obj[s].cr THEN UNCHANGED <<obj, trig, kc, ready>> /\ Mon(M!Read(s, n, <<>>))
     ELSE IF c.conn THEN obj' = [obj EXCEPT ![s].cr = FALSE] /\ UNCHANGED <<trig, kc, ready>> /\ Mon(M!Read(s, n, <<>>))
     ELSE IF c.rx > 0 THEN /\ kc' = [kc EXCEPT ![k].rx = @ - m] /\ UNCHANGED <<obj, trig, ready>>
                           /\ Mon(M!Read(s, n, Zeros(m)))
     ELSE IF c.err THEN SelfClose(s, k, Broken(c)) /\ Mon(M!Read(s, n, <<>>))
     ELSE IF c.eof THEN SelfClose(s, k, c) /\ Mon(M!Read(s, n, <<>>))
     ELSE obj' = [obj EXCEPT ![s].cr = FALSE] /\ UNCHANGED <<trig, kc, ready>> /\ Mon(M!Read(s, n, <<>>))
Write(s, n) ==
  LET k == obj[s].k c == kc[k] m == IF c.space < n THEN c.space ELSE n
      Again == obj' = [obj EXCEPT ![s].cw = FALSE] /\ kc' = [kc EXCEPT ![k].nosp = TRUE] /\ UNCHANGED <<trig, ready>> IN
  /\ Op("wr", <<"wr", s, n>>) /\ obj[s].alive /\ UNCHANGED fin
  /\ IF k = 0 \/ ~obj[s].cw THEN UNCHANGED <<obj, trig, kc, ready>> /\ Mon(M!Write(s, Zeros(n), 0))
     ELSE IF c.err THEN SelfClose(s, k, Broken(c)) /\ Mon(M!Write(s, Zeros(n), 0))
     ELSE IF c.conn THEN Again /\ Mon(M!Write(s, Zeros(n), 0))
     ELSE IF c.fin THEN SelfClose(s, k, c) /\ Mon(M!Write(s, Zeros(n), 0))
     ELSE IF c.space = 0 THEN Again /\ Mon(M!Write(s, Zeros(n), 0))
     ELSE /\ kc' = [kc EXCEPT ![k].space = @ - m, ![k].sent = @ + m, ![k].nosp = @ \/ (m < n)]
          /\ UNCHANGED <<obj, trig, ready>> /\ Mon(M!Write(s, Zeros(n), m))
Shut(s) ==
  LET k == obj[s].k IN
  /\ Op("wsh", <<"wsh", s>>) /\ obj[s].alive
  /\ Mon(M!Shutdown(s, obj[s].cw))
  /\ fin' = IF k # 0 /\ obj[s].cw THEN k ELSE 0
  /\ UNCHANGED <<obj, trig, kc, ready>>
OsFin ==
  LET c == kc[fin] d == IF c.conn THEN [c EXCEPT !.conn = FALSE, !.err = TRUE]
                        ELSE [c EXCEPT !.fin = TRUE] IN
  /\ fin # 0 /\ fin' = 0
  /\ kc' = [kc EXCEPT ![fin] = d]
  /\ ready' = IF c.conn \/ c.eof THEN Edge(ready, fin, d) ELSE ready
  /\ IF c.conn THEN Mute ELSE Mon(M!OsFin(fin))
  /\ UNCHANGED <<pc, obj, trig, cnt, hist>>
Return == /\ pc = "app" /\ fin = 0 /\ pc' = "loop" /\ UNCHANGED <<obj, trig, kc, ready, fin, cnt, hist>> /\ Mute

Handler ==
  LET s == Head(trig) IN
  /\ pc = "loop" /\ trig # <<>> /\ cnt.h < MaxHandlers
  /\ trig' = Tail(trig) /\ pc' = "app" /\ Rec(<<"H">>)
  /\ cnt' = [cnt EXCEPT !.h = @ + 1, !.blk = 0]
  /\ Mon(M!Handler(s, obj[s].k # 0))
  /\ UNCHANGED <<obj, kc, ready, fin>>
Owner(k) == CHOOSE s \in Socks : obj[s].k = k
\* the kernel hands out its whole ready list
Collect(q) ==
  LET F[i \in 0..Len(q)] ==
        IF i = 0 THEN [o |-> obj, t |-> trig]
        ELSE LET p == F[i-1] k == q[i] s == Owner(k) IN
             IF ~Level(kc[k]) THEN p
             ELSE [o |-> [p.o EXCEPT ![s].cr = @ \/ LevIn(kc[k]), ![s].cw = @ \/ LevOut(kc[k])], t |-> Push(p.t, s)]
  IN F[Len(q)]
Step ==
  /\ pc = "loop" /\ trig = <<>> /\ ready # <<>> /\ ready' = <<>>
  /\ obj' = Collect(ready).o /\ trig' = Collect(ready).t
  /\ UNCHANGED <<pc, kc, fin, cnt, hist>> /\ Mute
GoSleep ==
  /\ pc = "loop" /\ trig = <<>> /\ ready = <<>> /\ cnt.waits < MaxWaits
  /\ pc' = "sleep" /\ cnt' = [cnt EXCEPT !.waits = @ + 1] /\ Rec(<<"E">>)
  /\ cn' = [k \in DOMAIN cn |-> [cn[k] EXCEPT !.os = Zeros(kc[k].sent), !.osopen = kc[k].reg]]
  /\ UNCHANGED <<obj, trig, kc, ready, fin, sk, bad>>
Asleep == /\ pc = "sleep" /\ pc' = "wait" /\ UNCHANGED <<obj, trig, kc, ready, fin, cnt, hist>> /\ Mute
WakeUp ==
  /\ pc = "wait" /\ pc' = "loop" /\ ready' = <<>>
  /\ obj' = Collect(ready).o /\ trig' = Collect(ready).t
  /\ UNCHANGED <<kc, fin, cnt, hist>> /\ Mute
Env(x) == pc = "wait" /\ cnt.env < MaxEnv /\ cnt' = [cnt EXCEPT !.env = @ + 1] /\ Rec(x) /\ UNCHANGED <<pc, obj, trig, fin>>
Alive(k)  == kc[k].reg
Talks(k)  == Alive(k) /\ ~kc[k].conn /\ ~kc[k].eof /\ ~kc[k].err
Chg(k, c) == kc' = [kc EXCEPT ![k] = c] /\ ready' = Edge(ready, k, c)
PSend(k, n) == Env(<<"psend", k - 1, n>>) /\ Talks(k) /\ Chg(k, [kc[k] EXCEPT !.rx = @ + n]) /\ Mon(M!PeerSend(k, Zeros(n)))
PEof(k)  == Env(<<"peof", k - 1>>) /\ Talks(k) /\ Chg(k, [kc[k] EXCEPT !.eof = TRUE]) /\ Mon(M!PeerEof(k))
PErr(k)  == Env(<<"perr", k - 1>>) /\ Talks(k) /\ Chg(k, [kc[k] EXCEPT !.err = TRUE]) /\ Mon(M!PeerErr(k))
COk(k)   == Env(<<"cok", k - 1>>) /\ Alive(k) /\ kc[k].conn /\ Chg(k, [kc[k] EXCEPT !.conn = FALSE]) /\ Mon(M!Established(k))
CFail(k) == Env(<<"cfail", k - 1>>) /\ Alive(k) /\ kc[k].conn /\ Chg(k, [kc[k] EXCEPT !.conn = FALSE, !.err = TRUE]) /\ Mon(M!Refused(k))
AddSpace(k, n) ==
  LET c == [kc[k] EXCEPT !.space = @ + n, !.nosp = FALSE] IN
  /\ Env(<<"space", k - 1, n>>) /\ Alive(k) /\ kc' = [kc EXCEPT ![k] = c]
  /\ ready' = IF kc[k].nosp THEN Edge(ready, k, c) ELSE ready
  /\ Mon(M!Space(k, n))
Next ==
  \/ \E s \in Socks : \/ New(s) \/ Del(s) \/ Close(s, TRUE) \/ Close(s, FALSE) \/ Shut(s)
                      \/ \E how \in {"", "imm", "fail"} : Connect(s, how)
                      \/ \E n \in RdN : Read(s, n)
                      \/ \E n \in WrN : Write(s, n)
  \/ OsFin \/ Return \/ Handler \/ Step \/ GoSleep \/ Asleep \/ WakeUp
  \/ \E k \in DOMAIN kc : \/ PEof(k) \/ PErr(k) \/ COk(k) \/ CFail(k)
                          \/ \E n \in PeerN : PSend(k, n)
                          \/ \E n \in SpaceN : AddSpace(k, n)
Spec == Init /\ [][Next]_<<core, hist, sk, cn, bad>>
\* ---- what TLC checks ------------------------------------------------------
Accepted == ~bad
OpenAgrees == pc \in {"app", "wait"} /\ fin = 0 =>
  \A s \in Socks : obj[s].alive => /\ IsOpen(s) = M!IsOpen(s)
                                   /\ (sk[s].st = "open" /\ sk[s].zw /\ sk[s].cause = 0) => ~obj[s].cw
Rested == pc = "sleep" => M!SleepOK
Script == PrintT(ToJson(hist'))
=============================================================================
