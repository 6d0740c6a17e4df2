--------------------------- MODULE HttpSimpleTrace ---------------------------
(* Recorded executions of the simple HTTP request (C17).                        *)
EXTENDS TraceBase
VARIABLE x
S == INSTANCE HttpSimple WITH LINGER <- 15000, KEEP <- 10000
TInit == TraceInitBase /\ S!Init
TNext == Advance /\ S!Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l, x>>
=============================================================================
