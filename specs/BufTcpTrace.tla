---------------------------- MODULE BufTcpTrace -----------------------------
(* Recorded executions of buffered sockets (C07).                              *)
EXTENDS TraceBase
VARIABLES bk, bc, busy
T == INSTANCE BufTcp WITH B <- 0..1, LINGER <- 15000
Step(e) ==
  \/ e[1] # "sleep" /\ T!Step(e) /\ (e[1] = "h" => ~busy) /\ busy' = (busy \/ e[1] = "h")
  \/ e[1] = "ret" /\ busy' = FALSE /\ UNCHANGED <<bk, bc>>
  \/ e[1] = "sleep" /\ ~busy /\ e[3] > 0 /\ T!Step(e) /\ UNCHANGED busy
TInit == TraceInitBase /\ T!Init /\ busy = FALSE
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l, bk, bc, busy>>
=============================================================================
