------------------------------ MODULE LoopTrace ------------------------------
EXTENDS TraceBase
VARIABLES clock, now, woke, ph, wt, timer, owed, may, active, polled, ctl
INSTANCE Loop WITH Timers <- 0..3, Watchers <- 0..2, Idles <- 0..3
lvars == <<clock, now, woke, ph, wt, timer, owed, may, active, polled, ctl>>

Step(e) ==
  \/ e[1] = "arm"     /\ Arm(e[2], e[3])
  \/ e[1] = "cancel"  /\ CancelTimer(e[2])
  \/ e[1] = "ion"     /\ Activate(e[2])
  \/ e[1] = "ioff"    /\ Deactivate(e[2])
  \/ e[1] = "wcall"   /\ WCall(e[2])
  \/ e[1] = "wcancel" /\ WCancel(e[2])
  \/ e[1] = "pass"    /\ Pass(e[2])
  \/ e[1] = "sig"     /\ Signal
  \/ e[1] = "ret"     /\ Return
  \/ e[1] = "fire"    /\ Fire(e[2], e[3])
  \/ e[1] = "wrun"    /\ WRun(e[2], e[3])
  \/ e[1] = "irun"    /\ IRun(e[2], e[3])
  \/ e[1] = "ctl"     /\ CtlRun(e[2])
  \/ e[1] = "wait"    /\ Wait(e[2], e[3])
  \/ e[1] = "wake"    /\ Wake(e[2], e[3])
  \/ e[1] = "poll"    /\ Poll(e[2], e[3])
  \/ e[1] = "end"     /\ End
  \* timers beyond the horizon of a script: the harness stops waiting for them
  \/ e[1] = "gaveup"  /\ timer' = [t \in DOMAIN timer |-> IF timer[t].due > clock THEN Off ELSE timer[t]]
                      /\ UNCHANGED <<clock, now, woke, ph, wt, owed, may, active, polled, ctl>>
  \* the API reports the state of every timer and idle
  \/ e[1] = "q" /\ (\A t \in 0..3 : e[2][t+1] = timer[t].set)
                /\ (\A i \in 0..3 : e[3][i+1] = InSeq(active, i))
                /\ UNCHANGED lvars

TInit == TraceInitBase /\ Init
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l, lvars>>
=============================================================================
