---------------------------- MODULE StreamsTrace -----------------------------
EXTENDS TraceBase
VARIABLES rem, snk, scap
S == INSTANCE Streams
Step(e) ==
  \/ e[1] = "src" /\ S!Source(e[2])
  \/ e[1] = "rs"  /\ S!ReadSome(e[2], e[3])
  \/ e[1] = "rd"  /\ S!ReadExact(e[2], e[3], e[4])
  \/ e[1] = "wt"  /\ S!WriteTo(e[2], e[3], e[4])
  \/ e[1] = "sz"  /\ S!Size(e[2], e[3])
  \/ e[1] = "app" /\ S!Append1(e[2])
  \/ e[1] = "mv"  /\ UNCHANGED <<rem, snk, scap>>
  \/ e[1] = "clr" /\ S!Cleared
  \/ e[1] = "snk" /\ S!Sink(e[2], e[3])
  \/ e[1] = "ws"  /\ S!WriteSome(e[2], e[3])
  \/ e[1] = "wx"  /\ S!WriteExact(e[2], e[3])
  \/ e[1] = "ct"  /\ S!Content(e[2])
TInit == TraceInitBase /\ rem = <<>> /\ snk = <<>> /\ scap = 0
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l, rem, snk, scap>>
=============================================================================
