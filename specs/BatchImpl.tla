------------------------------ MODULE BatchImpl ------------------------------
(* One event batch with callables of every kind in it (C02, C22): a TCP socket,*)
(* a UDP receiver, signals, watchers and a timer on one loop, cancelled, closed *)
(* and destroyed by each other's handlers.  What each kind keeps is reduced to *)
(* what decides who is called: the list of triggered callables, the list of    *)
(* called watchers behind the wake-up event, the kernel's ready list.  The     *)
(* contracts Tcp, Udp and Notify run in lockstep as monitors.                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS HasS, HasU, Sigs, Watchers, HasT, MaxOps, MaxBlock, MaxWaits, MaxEnv, MaxHandlers
SO == 50  UO == 60  WAKE == 90  TMR == 5
Objs == {SO, UO} \cup Sigs \cup Watchers \cup {TMR}
SigsOf(x) == CASE x = 0 -> <<2>> [] x = 1 -> <<10, 12>> [] OTHER -> <<15>>
SigNo(x)  == Head(SigsOf(x))
VARIABLES pc, al,      \* objects alive
          soc,         \* the socket: "none", "open" (descriptor), "closed"
          con,         \* connections created so far
          rx,          \* bytes the socket has to read; datagrams of the UDP receiver
          urx,
          pend,        \* signals blocked and not read, per signal object
          tset,        \* the timer is armed (due at once)
          trig, fired, ready, cnt, hist, sk, cn, ud, nt, bad
core == <<pc, al, soc, con, rx, urx, pend, tset, trig, fired, ready, cnt>>
view == <<core, sk, cn, ud, nt, bad>>
T == INSTANCE Tcp WITH S <- {0}
U == INSTANCE Udp WITH U <- {0}
N == INSTANCE Notify WITH X <- 0..5
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
In(s, x)      == \E i \in DOMAIN s : s[i] = x
Push(s, x)    == IF In(s, x) THEN s ELSE Append(s, x)
cv == <<sk, cn, ud, nt>>
Fail == bad' = TRUE /\ UNCHANGED cv
Mute == UNCHANGED <<sk, cn, ud, nt, bad>>
MonT(A) == (A /\ UNCHANGED <<ud, nt, bad>>) \/ (~ENABLED A /\ Fail)
MonU(A) == (A /\ UNCHANGED <<sk, cn, nt, bad>>) \/ (~ENABLED A /\ Fail)
MonN(A) == (A /\ UNCHANGED <<sk, cn, ud, bad>>) \/ (~ENABLED A /\ Fail)
Rec(x) == hist' = Append(hist, x)
Space0 == 1048576

Init ==
  /\ pc = "app" /\ al = {SO, 0} /\ soc = "none" /\ con = 0 /\ rx = 0 /\ urx = 0 /\ pend = [x \in 0..2 |-> 0] /\ tset = FALSE
  /\ trig = <<>> /\ fired = <<>> /\ ready = <<>>
  /\ cnt = [ops |-> 0, blk |-> 0, waits |-> 0, env |-> 0, h |-> 0, port |-> 0]
  /\ hist = <<>> /\ bad = FALSE
  /\ sk = [s \in {0} |-> T!Fresh] /\ cn = <<>> /\ U!Init
  /\ nt = [x \in 0..5 |-> IF x = 0 THEN [alive |-> TRUE, sigs |-> {2}, n |-> 0, owed |-> FALSE] ELSE N!Dead]
Op(x) == /\ pc = "app" /\ cnt.ops < MaxOps /\ cnt.blk < MaxBlock /\ Rec(x)
         /\ cnt' = [cnt EXCEPT !.ops = @ + 1, !.blk = @ + 1] /\ UNCHANGED <<pc, con>>
Drop(x) == trig' = Without(trig, x) /\ ready' = Without(ready, x)
\* ---- socket
Conn == /\ HasS /\ SO \in al /\ soc # "open" /\ con < 2 /\ pc = "app" /\ cnt.ops < MaxOps /\ cnt.blk < MaxBlock /\ Rec(<<"conn", 0, "imm">>)
        /\ cnt' = [cnt EXCEPT !.ops = @ + 1, !.blk = @ + 1] /\ UNCHANGED pc
        /\ con' = con + 1 /\ soc' = "open" /\ rx' = 0
        /\ trig' = Append(Without(trig, SO), SO) /\ ready' = Append(Without(ready, SO), SO)
        /\ MonT(T!Connect(0, TRUE, FALSE, con + 1, TRUE, Space0))
        /\ UNCHANGED <<al, urx, pend, tset, fired>>
SClose(ev) ==
        /\ HasS /\ SO \in al /\ (soc = "open" \/ In(trig, SO)) /\ Op(<<IF ev THEN "closee" ELSE "close", 0>>)
        /\ soc' = "closed" /\ ready' = Without(ready, SO)
        /\ trig' = IF ev THEN Append(Without(trig, SO), SO) ELSE Without(trig, SO)
        /\ MonT(T!Close(0, ev)) /\ UNCHANGED <<al, rx, urx, pend, tset, fired>>
SDel == /\ HasS /\ SO \in al /\ Op(<<"del", 0>>) /\ al' = al \ {SO} /\ soc' = "closed" /\ Drop(SO)
        /\ MonT(T!Del(0)) /\ UNCHANGED <<rx, urx, pend, tset, fired>>
\* ---- UDP receiver
UNew == /\ HasU /\ UO \notin al /\ Op(<<"unew", 0>>) /\ al' = al \cup {UO} /\ urx' = 0 /\ ready' = Append(ready, UO)
        /\ MonU(U!New(0, Space0)) /\ UNCHANGED <<soc, rx, pend, tset, trig, fired>>
UDel == /\ HasU /\ UO \in al /\ Op(<<"udel", 0>>) /\ al' = al \ {UO} /\ Drop(UO)
        /\ MonU(U!Del(0)) /\ UNCHANGED <<soc, rx, urx, pend, tset, fired>>
\* ---- signals: reading clears what is blocked
GNew(x) == /\ x \in Sigs \ {0} /\ x \notin al /\ Op(<<"gnew", x>>) /\ al' = al \cup {x} /\ pend' = [pend EXCEPT ![x] = 0]
           /\ MonN(N!New(x, SigsOf(x))) /\ UNCHANGED <<soc, rx, urx, tset, trig, fired, ready>>
GDel(x) == /\ x \in Sigs \ {0} /\ x \in al /\ Op(<<"gdel", x>>) /\ al' = al \ {x} /\ Drop(x) /\ pend' = [pend EXCEPT ![x] = 0]
           /\ MonN(N!Del(x)) /\ UNCHANGED <<soc, rx, urx, tset, fired>>
\* ---- watchers: 3 and 4
WNew(x) == /\ x \notin al /\ Op(<<"wnew", x - 3>>) /\ al' = al \cup {x}
           /\ MonN(N!New(x, <<>>)) /\ UNCHANGED <<soc, rx, urx, pend, tset, trig, fired, ready>>
WOff(x, del) == /\ x \in al /\ Op(<<IF del THEN "wdel" ELSE "wcan", x - 3>>) /\ al' = IF del THEN al \ {x} ELSE al
                /\ fired' = Without(fired, x) /\ trig' = Without(trig, x)
                /\ (IF del THEN MonN(N!Del(x)) ELSE MonN(N!Cancelled(x)))
                /\ UNCHANGED <<soc, rx, urx, pend, tset, ready>>
WCalled(x) == fired' = Push(fired, x) /\ ready' = (IF In(ready, WAKE) THEN ready ELSE Append(ready, WAKE)) /\ MonN(N!Called(x))
WCall(x) == x \in al /\ Op(<<"wcall", x - 3>>) /\ WCalled(x) /\ UNCHANGED <<al, soc, rx, urx, pend, tset, trig>>
\* ---- timer
TNew == HasT /\ TMR \notin al /\ Op(<<"tnew">>) /\ al' = al \cup {TMR} /\ tset' = FALSE /\ MonN(N!New(TMR, <<>>)) /\ UNCHANGED <<soc, rx, urx, pend, trig, fired, ready>>
TArm == HasT /\ TMR \in al /\ Op(<<"tarm">>) /\ tset' = TRUE /\ MonN(N!Armed(TMR)) /\ UNCHANGED <<al, soc, rx, urx, pend, trig, fired, ready>>
TOff(del) == /\ HasT /\ TMR \in al /\ Op(<<IF del THEN "tdel" ELSE "tcan">>) /\ al' = (IF del THEN al \ {TMR} ELSE al) /\ tset' = FALSE
             /\ (IF del THEN MonN(N!Del(TMR)) ELSE MonN(N!Cancelled(TMR))) /\ UNCHANGED <<soc, rx, urx, pend, trig, fired, ready>>
\* ---- the loop
Return == pc = "app" /\ pc' = "loop" /\ UNCHANGED <<al, soc, con, rx, urx, pend, tset, trig, fired, ready, cnt, hist>> /\ Mute
Enter == cnt.h < MaxHandlers /\ pc' = "app" /\ Rec(<<"H">>) /\ cnt' = [cnt EXCEPT !.h = @ + 1, !.blk = 0]
Run ==
  LET x == Head(trig) IN
  /\ pc = "loop" /\ trig # <<>> /\ UNCHANGED <<al, con, soc, rx, urx, tset, ready>>
  /\ IF x = WAKE
     THEN /\ trig' = LET F[i \in 0..Len(fired)] == IF i = 0 THEN Tail(trig) ELSE Push(F[i-1], fired[i]) IN F[Len(fired)]
          /\ fired' = <<>> /\ UNCHANGED <<pc, cnt, hist, pend>> /\ Mute
     ELSE /\ trig' = Tail(trig) /\ Enter /\ UNCHANGED fired
          /\ pend' = IF x \in 0..2 THEN [pend EXCEPT ![x] = 0] ELSE pend
          /\ CASE x = SO -> MonT(T!Handler(0, soc = "open"))
               [] x = UO -> MonU(U!Handler(0))
               [] OTHER  -> MonN(N!Handler(x))
TimerRun == /\ pc = "loop" /\ trig = <<>> /\ tset /\ tset' = FALSE /\ Enter /\ MonN(N!Handler(TMR))
            /\ UNCHANGED <<al, soc, con, rx, urx, pend, trig, fired, ready>>
Lev(x) == IF x \in 0..2 THEN pend[x] > 0 ELSE TRUE
Collected == /\ trig' = LET F[i \in 0..Len(ready)] == IF i = 0 THEN trig ELSE IF Lev(ready[i]) THEN Push(F[i-1], ready[i]) ELSE F[i-1] IN F[Len(ready)]
             /\ ready' = <<>> /\ pc' = "loop" /\ UNCHANGED <<al, soc, con, rx, urx, pend, tset, fired, cnt, hist>> /\ Mute
Step == pc = "loop" /\ trig = <<>> /\ ~tset /\ ready # <<>> /\ Collected
GoSleep == /\ pc = "loop" /\ trig = <<>> /\ ~tset /\ ready = <<>> /\ cnt.waits < MaxWaits
           /\ pc' = "sleep" /\ cnt' = [cnt EXCEPT !.waits = @ + 1] /\ Rec(<<"E">>)
           /\ cn' = [k \in DOMAIN cn |-> [cn[k] EXCEPT !.osopen = (k = con /\ soc = "open")]]
           /\ UNCHANGED <<al, soc, con, rx, urx, pend, tset, trig, fired, ready, sk, ud, nt, bad>>
Asleep == pc = "sleep" /\ pc' = "wait" /\ UNCHANGED <<al, soc, con, rx, urx, pend, tset, trig, fired, ready, cnt, hist>> /\ Mute
WakeUp == pc = "wait" /\ Collected
EnvOp(x) == /\ pc = "wait" /\ cnt.env < MaxEnv /\ Rec(x) /\ cnt' = [cnt EXCEPT !.env = @ + 1, !.port = IF x[1] = "uarr" THEN @ + 1 ELSE @]
            /\ UNCHANGED <<pc, al, soc, con, tset, trig>>
ESend == soc = "open" /\ EnvOp(<<"psend", con - 1, 1>>) /\ rx' = rx + 1 /\ ready' = Push(ready, SO) /\ MonT(T!PeerSend(con, <<0>>)) /\ UNCHANGED <<urx, pend, fired>>
EArr  == UO \in al /\ EnvOp(<<"uarr", 0, 1>>) /\ urx' = urx + 1 /\ ready' = Push(ready, UO) /\ MonU(U!Arrive(0, <<0>>, cnt.port)) /\ UNCHANGED <<rx, pend, fired>>
ESig(x) == x \in al /\ EnvOp(<<"sig", SigNo(x)>>) /\ pend' = [pend EXCEPT ![x] = @ + 1] /\ ready' = Push(ready, x) /\ MonN(N!Raised(SigNo(x), TRUE)) /\ UNCHANGED <<rx, urx, fired>>
ECall(x) == x \in al /\ EnvOp(<<"wcall", x - 3>>) /\ WCalled(x) /\ UNCHANGED <<rx, urx, pend>>
Next ==
  \/ Conn \/ SClose(TRUE) \/ SClose(FALSE) \/ SDel \/ UNew \/ UDel \/ TNew \/ TArm \/ TOff(TRUE) \/ TOff(FALSE)
  \/ \E x \in Sigs : GNew(x) \/ GDel(x) \/ ESig(x)
  \/ \E x \in Watchers : WNew(x) \/ WOff(x, TRUE) \/ WOff(x, FALSE) \/ WCall(x) \/ ECall(x)
  \/ Return \/ Run \/ TimerRun \/ Step \/ GoSleep \/ Asleep \/ WakeUp \/ ESend \/ EArr
Spec == Init /\ [][Next]_<<core, hist, sk, cn, ud, nt, bad>>
Accepted == ~bad
\* sockets do not read here, so only what concerns calling is owed
Rested == pc = "sleep" => N!SleepOK(pend[0] + pend[1] + pend[2]) /\ ~sk[0].pend
OnlyLiving == \A i \in DOMAIN trig : trig[i] = WAKE \/ trig[i] \in al
FiredLiving == \A i \in DOMAIN fired : fired[i] \in al
Script == PrintT(ToJson(hist'))
=============================================================================
