------------------------------- MODULE Notify -------------------------------
(* Contract of Signal (C22) and, as neighbours in the same event batches, of  *)
(* Watcher and Timer in their simplest form (the full ones: Loop.tla).        *)
EXTENDS Naturals, Integers, Sequences
CONSTANT X                      \* objects
VARIABLES nt                    \* per object: alive, the signals it listens to, n: happenings a handler run may answer, owed: a run is due
Dead == [alive |-> FALSE, sigs |-> {}, n |-> 0, owed |-> FALSE]
Init == nt = [x \in X |-> Dead]
ToSet(s) == {s[i] : i \in DOMAIN s}
New(x, sigs) == ~nt[x].alive /\ nt' = [nt EXCEPT ![x] = [Dead EXCEPT !.alive = TRUE, !.sigs = ToSet(sigs)]]
Del(x) == nt[x].alive /\ nt' = [nt EXCEPT ![x] = Dead]
\* a signal of the process: survived says it did not take the default action
Raised(no, survived) ==
  /\ survived = (\E x \in X : nt[x].alive /\ no \in nt[x].sigs)
  /\ nt' = [x \in X |-> IF nt[x].alive /\ no \in nt[x].sigs THEN [nt[x] EXCEPT !.n = @ + 1, !.owed = TRUE] ELSE nt[x]]
Called(x)    == nt[x].alive /\ nt' = [nt EXCEPT ![x].n = @ + 1, ![x].owed = TRUE]
Armed(x)     == nt[x].alive /\ nt' = [nt EXCEPT ![x].n = 1, ![x].owed = TRUE]     \* a timer due now
Cancelled(x) == nt[x].alive /\ nt' = [nt EXCEPT ![x].n = 0, ![x].owed = FALSE]
\* never more often than it happened; several happenings may be merged
Handler(x)   == nt[x].alive /\ nt[x].n > 0 /\ nt' = [nt EXCEPT ![x].n = @ - 1, ![x].owed = FALSE]
\* signals of the process that are blocked are exactly those listened to
Mask(m) == ToSet(m) = UNION {nt[x].sigs : x \in X} /\ UNCHANGED nt
SleepOK(left) == left = 0 /\ \A x \in X : ~nt[x].owed
Step(e) ==
  \/ e[1] = "nnew"  /\ New(e[2], e[3])
  \/ e[1] = "ndel"  /\ Del(e[2])
  \/ e[1] = "sig"   /\ Raised(e[2], e[3])
  \/ e[1] = "ncall" /\ Called(e[2])
  \/ e[1] = "narm"  /\ Armed(e[2])
  \/ e[1] = "ncan"  /\ Cancelled(e[2])
  \/ e[1] = "nh"    /\ Handler(e[2])
  \/ e[1] = "mask"  /\ Mask(e[2])
=============================================================================
