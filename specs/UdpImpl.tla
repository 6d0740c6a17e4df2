------------------------------- MODULE UdpImpl -------------------------------
(* UDPReceiver (0) and UDPTransmitter (1) as they are designed.  The contract  *)
(* Udp runs in lockstep as a monitor; every transition is printed as a script. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Us, SizesIn, RdN, Space0, MaxOps, MaxBlock, MaxWaits, MaxEnv, MaxHandlers, WithPers
VARIABLES pc, ob, trig, ready, cnt, hist, ud, bad
core == <<pc, ob, trig, ready, cnt>>
view == <<core, ud, bad>>
M == INSTANCE Udp WITH U <- Us
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
In(s, x)      == \E i \in DOMAIN s : s[i] = x
Push(s, x)    == IF In(s, x) THEN s ELSE Append(s, x)
Zeros(n) == [i \in 1..n |-> 0]
Mute   == UNCHANGED <<ud, bad>>
Mon(A) == (A /\ UNCHANGED bad) \/ (~ENABLED A /\ bad' = TRUE /\ UNCHANGED ud)
Rec(x) == hist' = Append(hist, x)
Gone == [alive |-> FALSE, cr |-> FALSE, cw |-> FALSE, rx |-> <<>>, errs |-> 0, serrs |-> 0, space |-> 0, nosp |-> FALSE, sent |-> <<>>]
Init == /\ pc = "app" /\ ob = [u \in Us |-> Gone] /\ trig = <<>> /\ ready = <<>>
        /\ cnt = [ops |-> 0, blk |-> 0, waits |-> 0, env |-> 0, h |-> 0, port |-> 0]
        /\ hist = <<<<"sp", Space0>>>> /\ M!Init /\ bad = FALSE
Lev(u)   == ob[u].rx # <<>> \/ ob[u].errs > 0 \/ ob[u].space > 0
To(u)    == IF u = 1 THEN 5001 ELSE 6000
Op(x) == /\ pc = "app" /\ cnt.ops < MaxOps /\ cnt.blk < MaxBlock /\ cnt' = [cnt EXCEPT !.ops = @ + 1, !.blk = @ + 1]
         /\ Rec(x) /\ UNCHANGED pc
New(u) == /\ Op(<<"unew", u>>) /\ ~ob[u].alive
          /\ ob' = [ob EXCEPT ![u] = [Gone EXCEPT !.alive = TRUE, !.space = Space0, !.cr = (u = 1), !.cw = (u = 1)]]
          /\ ready' = Append(ready, u) /\ trig' = IF u = 1 THEN Append(trig, u) ELSE trig
          /\ Mon(M!New(u, Space0))
Del(u) == /\ Op(<<"udel", u>>) /\ ob[u].alive /\ ob' = [ob EXCEPT ![u] = Gone]
          /\ trig' = Without(trig, u) /\ ready' = Without(ready, u) /\ Mon(M!Del(u))
Min(a, b) == IF a < b THEN a ELSE b
\* a pending error is answered once in place of a datagram: receiving is repeated, 16 times at most
Read(u, n) ==
  LET o == ob[u] IN
  /\ Op(<<"ur", u, n>>) /\ o.alive /\ UNCHANGED <<trig, ready>>
  /\ IF ~o.cr THEN UNCHANGED ob /\ Mon(M!Read(u, n, FALSE, <<>>, 0))
     ELSE IF o.errs >= 16 THEN ob' = [ob EXCEPT ![u].errs = @ - 16] /\ Mon(M!Read(u, n, FALSE, <<>>, 0))
     ELSE IF o.rx = <<>> THEN ob' = [ob EXCEPT ![u].errs = 0, ![u].cr = FALSE] /\ Mon(M!Read(u, n, FALSE, <<>>, 0))
     ELSE LET d == Head(o.rx) IN
          /\ ob' = [ob EXCEPT ![u].errs = 0, ![u].rx = Tail(@)]
          /\ Mon(M!Read(u, n, TRUE, Zeros(Min(n, d[1])), d[2]))
Write(u) ==
  LET o == ob[u] IN
  /\ Op(<<"uw", u, 1>>) /\ o.alive /\ UNCHANGED <<trig, ready>>
  /\ IF ~o.cw THEN UNCHANGED ob /\ Mon(M!Write(u, <<0>>, To(u), FALSE))
     ELSE IF o.serrs > 0 THEN ob' = [ob EXCEPT ![u].serrs = @ - 1] /\ Mon(M!Write(u, <<0>>, To(u), TRUE))
     ELSE IF o.space = 0 THEN ob' = [ob EXCEPT ![u].cw = FALSE, ![u].nosp = TRUE] /\ Mon(M!Write(u, <<0>>, To(u), FALSE))
     ELSE ob' = [ob EXCEPT ![u].space = @ - 1, ![u].sent = Append(@, <<<<0>>, To(u)>>)] /\ Mon(M!Write(u, <<0>>, To(u), TRUE))
Return == pc = "app" /\ pc' = "loop" /\ UNCHANGED <<ob, trig, ready, cnt, hist>> /\ Mute
Handler == /\ pc = "loop" /\ trig # <<>> /\ cnt.h < MaxHandlers
           /\ trig' = Tail(trig) /\ pc' = "app" /\ Rec(<<"H">>) /\ cnt' = [cnt EXCEPT !.h = @ + 1, !.blk = 0]
           /\ Mon(M!Handler(Head(trig))) /\ UNCHANGED <<ob, ready>>
Hot == SelectSeq(ready, Lev)
Collected ==
  /\ ob' = [u \in Us |-> IF In(Hot, u) THEN [ob[u] EXCEPT !.cr = @ \/ ob[u].rx # <<>> \/ ob[u].errs > 0, !.cw = @ \/ ob[u].space > 0] ELSE ob[u]]
  /\ trig' = LET F[i \in 0..Len(Hot)] == IF i = 0 THEN trig ELSE Push(F[i-1], Hot[i]) IN F[Len(Hot)]
  /\ ready' = <<>> /\ pc' = "loop" /\ UNCHANGED <<cnt, hist>> /\ Mute
Step == pc = "loop" /\ trig = <<>> /\ ready # <<>> /\ Collected
GoSleep == /\ pc = "loop" /\ trig = <<>> /\ ready = <<>> /\ cnt.waits < MaxWaits
           /\ pc' = "sleep" /\ cnt' = [cnt EXCEPT !.waits = @ + 1] /\ Rec(<<"E">>)
           /\ ud' = [u \in Us |-> [ud[u] EXCEPT !.os = ob[u].sent]]
           /\ UNCHANGED <<ob, trig, ready, bad>>
Asleep == pc = "sleep" /\ pc' = "wait" /\ UNCHANGED <<ob, trig, ready, cnt, hist>> /\ Mute
WakeUp == pc = "wait" /\ Collected
EnvOp(u, x, o, edge) == /\ pc = "wait" /\ cnt.env < MaxEnv /\ ob[u].alive /\ Rec(x) /\ UNCHANGED <<pc, trig>>
                        /\ cnt' = [cnt EXCEPT !.env = @ + 1, !.port = IF x[1] = "uarr" THEN @ + 1 ELSE @] /\ ob' = [ob EXCEPT ![u] = o]
                        /\ ready' = IF edge THEN Push(ready, u) ELSE ready
Arrive(u, n) == EnvOp(u, <<"uarr", u, n>>, [ob[u] EXCEPT !.rx = Append(@, <<n, cnt.port>>)], TRUE) /\ Mon(M!Arrive(u, Zeros(n), cnt.port))
Err(u)  == ob[u].errs < 1 /\ EnvOp(u, <<"uerr", u>>, [ob[u] EXCEPT !.errs = 1], TRUE) /\ Mon(M!Err(u))
Pers(u) == WithPers /\ EnvOp(u, <<"upers", u>>, [ob[u] EXCEPT !.errs = @ + 200], TRUE) /\ Mon(M!Pers(u))
SErr(u) == ob[u].serrs < 1 /\ EnvOp(u, <<"userr", u>>, [ob[u] EXCEPT !.serrs = @ + 1], FALSE) /\ Mon(M!SendErr(u))
Space(u) == EnvOp(u, <<"uspace", u, 1>>, [ob[u] EXCEPT !.space = @ + 1, !.nosp = FALSE], ob[u].nosp) /\ Mon(M!Space(u, 1))
Next ==
  \/ \E u \in Us : \/ New(u) \/ Del(u) \/ Write(u) \/ Err(u) \/ Pers(u) \/ SErr(u) \/ Space(u)
                   \/ \E n \in RdN : Read(u, n)
                   \/ \E n \in SizesIn : Arrive(u, n)
  \/ Return \/ Handler \/ Step \/ GoSleep \/ Asleep \/ WakeUp
Spec == Init /\ [][Next]_<<core, hist, ud, bad>>
Accepted == ~bad
WriteAgrees == pc \in {"app", "wait"} => \A u \in Us : (ob[u].alive /\ ud[u].zw /\ ud[u].cause = 0) => ~ob[u].cw
Rested == pc = "sleep" => M!SleepOK
Script == PrintT(ToJson(hist'))
=============================================================================
