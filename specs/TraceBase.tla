------------------------------ MODULE TraceBase ------------------------------
(* Common part of all trace specifications: a file holds many recorded        *)
(* executions; every one is an initial state, and each step consumes one      *)
(* event.  An execution is accepted when all its events were consumed; the    *)
(* runner (lib/vlib.py) collects the ACC lines.  DIAG=1 also prints how far   *)
(* each execution could be followed.                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Diag   == IOEnv.DIAG = "1"

VARIABLES tid, l

TraceInitBase == tid \in DOMAIN Traces /\ l = 1
More          == l <= Len(Traces[tid])
Ev            == Traces[tid][l]
Advance       == More /\ l' = l + 1 /\ tid' = tid
Report == /\ (Diag => PrintT(<<"POS", tid, l>>))
          /\ (l > Len(Traces[tid]) => PrintT(<<"ACC", tid>>))
=============================================================================
