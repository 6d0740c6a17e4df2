------------------------------ MODULE Acceptor ------------------------------
(* Contract of TCPAcceptor (C18): q is the OS backlog (peer ports), held what *)
(* the library took from it but did not hand over yet, wa: the application    *)
(* waits for a handler call, retry: when accepting is due again after the OS  *)
(* ran into a limit (-1: not).                                                *)
EXTENDS Naturals, Integers, Sequences
CONSTANT A
VARIABLES ac
Dead == [alive |-> FALSE, q |-> <<>>, held |-> <<>>, wa |-> FALSE, retry |-> -1, cause |-> 0]
Init == ac = [a \in A |-> Dead]
New(a) == ~ac[a].alive /\ ac' = [ac EXCEPT ![a] = [Dead EXCEPT !.alive = TRUE, !.wa = TRUE]]
Del(a) == ac[a].alive /\ ac' = [ac EXCEPT ![a] = Dead]
Incoming(a, port) == ac' = [ac EXCEPT ![a].q = Append(@, port), ![a].cause = @ + 1]
\* what the OS answered to accept(): "ok", "again", "abort" (entry gone), "limit" (entry kept)
OsAccept(a, r, now) ==
  /\ ac[a].alive
  /\ ac' = [ac EXCEPT ![a] =
       CASE r = "ok"    -> [@ EXCEPT !.held = Append(@, Head(ac[a].q)), !.q = Tail(@)]
         [] r = "abort" -> [@ EXCEPT !.q = Tail(@)]
         [] r = "limit" -> [@ EXCEPT !.retry = now + 1000]
         [] OTHER -> @]
CanAccept(a, b) ==
  /\ ac[a].alive /\ b = (ac[a].held # <<>>)
  /\ ac' = IF b THEN ac ELSE [ac EXCEPT ![a].wa = TRUE]
Taken(a, port) ==
  /\ ac[a].alive /\ ac[a].held # <<>> /\ port = Head(ac[a].held)
  /\ ac' = [ac EXCEPT ![a].held = Tail(@)]
Handler(a, now) ==
  LET due == ac[a].retry >= 0 /\ now >= ac[a].retry IN
  /\ ac[a].alive /\ (due \/ ac[a].cause > 0)
  /\ ac' = [ac EXCEPT ![a] = [@ EXCEPT !.wa = @ /\ ac[a].q = <<>>,
                                       !.cause = IF due THEN @ ELSE @ - 1,
                                       !.retry = IF due THEN -1 ELSE @]]
\* no connection waits while the application does, except until the retry is due
SleepOK(timeout, now) ==
  \A a \in A : ac[a].alive /\ ac[a].wa /\ ac[a].q # <<>> =>
    ac[a].retry > now /\ timeout <= ac[a].retry - now + 1
Step(e) ==
  \/ e[1] = "anew"  /\ New(e[2])
  \/ e[1] = "adel"  /\ Del(e[2])
  \/ e[1] = "inc"   /\ Incoming(e[2], e[3])
  \/ e[1] = "osacc" /\ OsAccept(e[2], e[3], e[4])
  \/ e[1] = "can"   /\ CanAccept(e[2], e[3])
  \/ e[1] = "ah"    /\ Handler(e[2], e[3])
=============================================================================
