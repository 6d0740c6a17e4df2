------------------------------ MODULE ValTrace -------------------------------
(* crab::optional (three objects) and crab::string_view (two objects), in the   *)
(* language versions where they are the library's own and where they are not.  *)
EXTENDS TraceBase
VARIABLES opt,   \* <<>> or <<value>>
          view   \* what is seen
vs == <<opt, view>>
Least(a, b) == IF a < b THEN a ELSE b
Step(e) ==
  \/ e[1] = "set"   /\ opt' = [opt EXCEPT ![e[2]] = <<e[3]>>] /\ UNCHANGED view
  \/ e[1] = "none"  /\ opt' = [opt EXCEPT ![e[2]] = <<>>] /\ UNCHANGED view
  \/ e[1] = "copy"  /\ opt' = [opt EXCEPT ![e[2]] = opt[e[3]]] /\ UNCHANGED view
  \* has a value, value() gives it or throws
  \/ e[1] = "opt"   /\ e[3] = (opt[e[2]] # <<>>) /\ e[4] = opt[e[2]] /\ e[5] = opt[e[2]] /\ UNCHANGED vs
  \/ e[1] = "view"  /\ view' = [view EXCEPT ![e[2]] = e[3]] /\ UNCHANGED opt
  \* substr of view e[3] into view e[2]; throws exactly when it begins after the end
  \/ e[1] = "sub"   /\ e[6] = (e[4] <= Len(view[e[3]]))
                    /\ view' = (IF e[6] THEN [view EXCEPT ![e[2]] = SubSeq(view[e[3]], e[4] + 1, Least(Len(view[e[3]]), e[4] + e[5]))] ELSE view)
                    /\ UNCHANGED opt
  \/ e[1] = "pre"   /\ view' = [view EXCEPT ![e[2]] = SubSeq(@, e[3] + 1, Len(@))] /\ UNCHANGED opt
  \/ e[1] = "suf"   /\ view' = [view EXCEPT ![e[2]] = SubSeq(@, 1, Len(@) - e[3])] /\ UNCHANGED opt
  \/ e[1] = "see"   /\ e[3] = view[e[2]] /\ UNCHANGED vs
  \* ==, != in both directions, compare() = 0
  \/ e[1] = "eq"    /\ (\A i \in 4..6 : e[i] = (view[e[2]] = e[3])) /\ UNCHANGED vs
TInit == TraceInitBase /\ opt = <<<<>>, <<>>, <<>>>> /\ view = <<<<>>, <<>>>>
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l, opt, view>>
=============================================================================
