--------------------------- MODULE HttpServTrace -----------------------------
(* Recorded executions of the HTTP server (C10, C12, C13, C14).                *)
EXTENDS TraceBase
VARIABLES c, mx
S == INSTANCE HttpServ WITH K <- 0..5, LINGER <- 15000, TICK <- 45000
D == INSTANCE HttpDate
\* the date given to an answer: of the moment, at most a second old
Date(e) == e[1] = "date" /\ D!Between(e[8], e[4], e[5], e[6], e[7]) /\ UNCHANGED <<c, mx>>
TInit == TraceInitBase /\ S!Init
TNext == Advance /\ (S!Step(Ev) \/ Date(Ev))
TSpec == TInit /\ [][TNext]_<<tid, l, c, mx>>
=============================================================================
