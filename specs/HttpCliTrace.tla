---------------------------- MODULE HttpCliTrace -----------------------------
(* Recorded executions of the HTTP client connection (C15, C13, C14).          *)
EXTENDS TraceBase
VARIABLE x
S == INSTANCE HttpCli WITH LINGER <- 15000
TInit == TraceInitBase /\ S!Init
TNext == Advance /\ S!Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l, x>>
=============================================================================
