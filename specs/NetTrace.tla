------------------------------ MODULE NetTrace ------------------------------
(* Recorded executions of sockets, acceptors, UDP sockets, signals, watchers   *)
(* and timers sharing one loop (C02, C06, C18, C19, C22).                     *)
EXTENDS TraceBase
VARIABLES sk, cn, ac, ud, nt, busy
T == INSTANCE Tcp WITH S <- 0..2
A == INSTANCE Acceptor WITH A <- 0..1
U == INSTANCE Udp WITH U <- 0..1
N == INSTANCE Notify WITH X <- 0..5
vs == <<sk, cn, ac, ud, nt, busy>>
Entry(e) == e[1] \in {"h", "ah", "uh", "nh"}
Step(e) ==
  \/ /\ \/ T!Step(e) /\ UNCHANGED <<ac, ud, nt>>
        \/ A!Step(e) /\ UNCHANGED <<sk, cn, ud, nt>>
        \/ U!Step(e) /\ UNCHANGED <<sk, cn, ac, nt>>
        \/ N!Step(e) /\ UNCHANGED <<sk, cn, ac, ud>>
     /\ (Entry(e) => ~busy)                     \* handlers do not nest
     /\ busy' = (busy \/ Entry(e))
  \/ e[1] = "acc" /\ T!Accept(e[2], e[5], e[6], e[7]) /\ A!Taken(e[3], e[4]) /\ UNCHANGED <<ud, nt, busy>>
  \/ e[1] = "ret" /\ busy' = FALSE /\ UNCHANGED <<sk, cn, ac, ud, nt>>
  \* timeout > 0: no idles here, so an empty poll would be spinning
  \/ e[1] = "sleep" /\ ~busy /\ e[2] > 0 /\ T!SleepOK /\ A!SleepOK(e[2], e[3]) /\ U!SleepOK /\ N!SleepOK(e[4]) /\ UNCHANGED vs
TInit == TraceInitBase /\ T!Init /\ A!Init /\ U!Init /\ N!Init /\ busy = FALSE
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l, vs>>
=============================================================================
