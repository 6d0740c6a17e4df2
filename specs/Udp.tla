--------------------------------- MODULE Udp --------------------------------
(* Contract of UDPReceiver and UDPTransmitter (C19).  inq: datagrams and      *)
(* error reports the OS has for the application; out/os: what was handed to   *)
(* the OS; space: datagrams the OS still takes.                               *)
EXTENDS Naturals, Integers, Sequences
CONSTANT U
VARIABLES ud
Dead == [alive |-> FALSE, inq |-> <<>>, errs |-> 0, serrs |-> 0, out |-> <<>>, os |-> <<>>, space |-> 0, wr |-> FALSE, ww |-> FALSE, cause |-> 0, pers |-> FALSE, zw |-> FALSE]
Init == ud = [u \in U |-> Dead]
Min(a, b)  == IF a < b THEN a ELSE b
New(u, space) == ~ud[u].alive /\ ud' = [ud EXCEPT ![u] = [Dead EXCEPT !.alive = TRUE, !.wr = TRUE, !.ww = TRUE, !.space = space, !.cause = 2]]
Del(u) == ud[u].alive /\ ud' = [ud EXCEPT ![u] = Dead]
Arrive(u, data, from) == ud' = [ud EXCEPT ![u].inq = Append(@, <<data, from>>), ![u].cause = @ + 1, ![u].zw = FALSE]
Err(u)      == ud' = [ud EXCEPT ![u].errs = @ + 1, ![u].cause = @ + 1, ![u].zw = FALSE]     \* ICMP report: next receive fails once
Pers(u)     == ud' = [ud EXCEPT ![u].pers = TRUE, ![u].cause = @ + 1, ![u].zw = FALSE]   \* the OS keeps failing to receive
SendErr(u)  == ud' = [ud EXCEPT ![u].serrs = @ + 1]                         \* next send is refused
Space(u, n) == ud' = [ud EXCEPT ![u].space = @ + n, ![u].zw = FALSE, ![u].cause = @ + 1]
\* data cut to the given space; no value only when waiting
Read(u, count, some, data, from) ==
  /\ ud[u].alive
  /\ IF some THEN /\ ud[u].inq # <<>>
                  /\ LET d == Head(ud[u].inq) IN data = SubSeq(d[1], 1, Min(count, Len(d[1]))) /\ from = d[2]
                  /\ ud' = [ud EXCEPT ![u].inq = Tail(@), ![u].errs = 0, ![u].wr = FALSE]
     ELSE ud' = [ud EXCEPT ![u].wr = TRUE]
Write(u, data, to, ok) ==
  /\ ud[u].alive
  /\ IF ~ok THEN ud' = [ud EXCEPT ![u].ww = TRUE, ![u].zw = TRUE]
     ELSE IF ud[u].serrs > 0 THEN ud' = [ud EXCEPT ![u].serrs = @ - 1, ![u].ww = FALSE, ![u].zw = FALSE]     \* the OS dropped it: ignored like any loss
     ELSE ud[u].space > 0 /\ ud' = [ud EXCEPT ![u].out = Append(@, <<data, to>>), ![u].space = @ - 1, ![u].ww = FALSE, ![u].zw = FALSE]
Handler(u) ==
  /\ ud[u].alive /\ ud[u].cause > 0
  /\ ud' = [ud EXCEPT ![u].cause = @ - 1, ![u].zw = FALSE, ![u].wr = @ /\ ud[u].inq = <<>>, ![u].ww = @ /\ ud[u].space = 0]
CanWrite(u, w) == ud[u].alive /\ ((ud[u].zw /\ ud[u].cause = 0) => ~w) /\ UNCHANGED ud
Seen(u, more) == ud' = [ud EXCEPT ![u].os = @ \o more]
SleepOK == \A u \in U : ud[u].alive =>
  /\ ~(ud[u].wr /\ ud[u].inq # <<>> /\ ~ud[u].pers)
  /\ ~(ud[u].ww /\ ud[u].space > 0)
  /\ ud[u].os = ud[u].out
Step(e) ==
  \/ e[1] = "unew"   /\ New(e[2], e[3])
  \/ e[1] = "udel"   /\ Del(e[2])
  \/ e[1] = "uarr"   /\ Arrive(e[2], e[3], e[4])
  \/ e[1] = "uerr"   /\ Err(e[2])
  \/ e[1] = "upers"  /\ Pers(e[2])
  \/ e[1] = "ucw"    /\ CanWrite(e[2], e[3])
  \/ e[1] = "userr"  /\ SendErr(e[2])
  \/ e[1] = "uspace" /\ Space(e[2], e[3])
  \/ e[1] = "ur"     /\ Read(e[2], e[3], e[4], e[5], e[6])
  \/ e[1] = "uw"     /\ Write(e[2], e[3], e[4], e[5])
  \/ e[1] = "uh"     /\ Handler(e[2])
  \/ e[1] = "useen"  /\ Seen(e[2], e[3])
=============================================================================
