------------------------------ MODULE NumTrace -------------------------------
(* Every answer of the integer functions is the exact one, or a refusal when   *)
(* and only when the exact answer does not fit.  Numbers come as texts.        *)
EXTENDS TraceBase, Numbers
Answer(e, k, can, x) == e[k] = can /\ (can => e[k + 1] = Text(x))
Step(e) ==
  \/ e[1] = "parse" /\ Answer(e, 4, Parses(e[2], e[3]), Value(e[3]))
  \/ e[1] = "cast"  /\ Answer(e, 5, Fits(e[2], Value(e[4])), Value(e[4]))
  \/ e[1] = "float" /\ LET d == Strip([i \in DOMAIN e[4] |-> e[4][i] - 48])
                       IN Answer(e, 6, FloatFits(e[2], e[3], d, e[5]), FloatValue(e[3], d, e[5]))
  \/ e[1] = "nan"   /\ e[3] = FALSE
  \/ e[1] = "save"  /\ e[4] = e[3]
  \/ e[1] = "add"   /\ LET x == AddN(Value(e[3]), Value(e[4])) IN Answer(e, 5, Fits(e[2], x), x)
  \/ e[1] = "sub"   /\ LET x == SubN(Value(e[3]), Value(e[4])) IN Answer(e, 5, Fits(e[2], x), x)
  \/ e[1] = "abs"   /\ e[4] = Text(<<1, Value(e[3])[2]>>)
TInit == TraceInitBase
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l>>
=============================================================================
