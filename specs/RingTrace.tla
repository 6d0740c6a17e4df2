------------------------------ MODULE RingTrace ------------------------------
EXTENDS TraceBase
VARIABLES q, cap, dead
R == INSTANCE Ring
Step(e) ==
  \/ e[1] = "create" /\ R!Create(e[2])
  \/ e[1] = "read"   /\ R!ReadSome(e[2], e[3])
  \/ e[1] = "write"  /\ R!WriteSome(e[2], e[3])
  \/ e[1] = "rfrom"  /\ R!ReadFrom(e[2], e[3])
  \/ e[1] = "wto"    /\ R!WriteTo(e[2], e[3], e[4])
  \/ e[1] = "peek"   /\ R!Peek(e[2], e[3], e[4])
  \/ e[1] = "enough" /\ R!ReadEnough(e[2], e[3], e[4])
  \/ e[1] = "dread"  /\ R!DidRead(e[2], e[3])
  \/ e[1] = "dwrite" /\ R!DidWrite(e[2], e[3])
  \/ e[1] = "undo"   /\ R!DidWriteUndo(e[2], e[3])
  \/ e[1] = "clear"  /\ R!Clear
  \/ e[1] = "resize" /\ R!Resize(e[2])
  \/ e[1] = "st"     /\ R!Report(e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9])
TInit == TraceInitBase /\ q = <<>> /\ cap = 0 /\ dead = FALSE
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l, q, cap, dead>>
=============================================================================
