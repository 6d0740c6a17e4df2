------------------------------ MODULE PcgTrace -------------------------------
(* A generator made with a seed gives the PCG32 sequence of that seed, however  *)
(* the results are taken; one made without seed gives its own sequence.        *)
EXTENDS TraceBase, Pcg
VARIABLES st, inc
Upto(n) == (n + 3) \div 4
Take(n, r) == LET d == Draw(st, inc, Upto(n)) IN r = SubSeq(d[1], 1, n) /\ st' = d[2] /\ UNCHANGED inc
StepE(e) ==
  \/ e[1] = "seed"  /\ inc' = IncOf(e[2]) /\ st' = Start(e[2])
  \/ e[1] = "next"  /\ Take(4, e[2])
  \/ e[1] = "bytes" /\ Take(e[2], e[3])
  \/ e[1] = "text"  /\ LET p == Printable(st, inc, e[2]) IN e[3] = p[1] /\ st' = p[2] /\ UNCHANGED inc
  \* value times 2^53 is a whole number, less than 2^53
  \/ e[1] = "unit"  /\ e[3] /\ LET d == Draw(st, inc, 2) IN /\ e[2] = Unit(SubSeq(d[1], 1, 4), SubSeq(d[1], 5, 8))
                                                            /\ st' = d[2] /\ UNCHANGED inc
  \/ e[1] = "range" /\ e[2] = <<0, 0, 0, 0>> /\ e[3] = <<255, 255, 255, 255>> /\ UNCHANGED <<st, inc>>
  \/ e[1] = "fresh" /\ (\A i, j \in DOMAIN e[2] : i # j => e[2][i] # e[2][j]) /\ UNCHANGED <<st, inc>>
TInit == TraceInitBase /\ st = <<>> /\ inc = <<>>
TNext == Advance /\ StepE(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l, st, inc>>
=============================================================================
