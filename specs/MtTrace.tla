------------------------------ MODULE MtTrace ------------------------------
(* Recordings of programs of several threads, in the order of execution.      *)
EXTENDS TraceBase
VARIABLES lp, inh, cred, sure, allow, can, own, unsat, tok, open, over, th, fnst, res, reqs, nlook, sy
INSTANCE Wake WITH Loops <- 0..19, Watchers <- 0..5, Threads <- 0..5
INSTANCE Dns WITH Resolvers <- 0..5
wvars == <<lp, inh, cred, sure, allow, can, own, unsat, tok, open, over, th, fnst>>
dvars == <<res, reqs, nlook, sy>>
mvars == <<lp, inh, cred, sure, allow, can, own, unsat, tok, open, over, th, fnst, res, reqs, nlook, sy>>

Set(s) == {s[i] : i \in DOMAIN s}

WakeStep(e) ==
  \/ e[1] = "loop"  /\ LoopNew(e[2])
  \/ e[1] = "lend"  /\ LoopEnd(e[2])
  \/ e[1] = "run"   /\ Run(e[2])
  \/ e[1] = "ret"   /\ Ret(e[2])
  \/ e[1] = "lcan"  /\ CancelBegin(e[2], e[3])
  \/ e[1] = "lcand" /\ CancelEnd(e[2], e[3])
  \/ e[1] = "wnew"  /\ WatcherNew(e[2], e[3])
  \/ e[1] = "wcanb" /\ WatcherCancelBegin(e[2])
  \/ e[1] = "wcan"  /\ WatcherCancel(e[2])
  \/ e[1] = "wdel"  /\ WatcherDel(e[2])
  \/ e[1] = "call"  /\ Call(e[2], e[3])
  \/ e[1] = "calld" /\ Called(e[2])
  \/ e[1] = "h"     /\ Handler(e[2], e[3], Set(e[4]))
  \/ e[1] = "th"    /\ Other(e[3])
  \/ e[1] = "he"    /\ HandlerEnd(e[3])
  \/ e[1] = "tn"    /\ ThreadNew(e[2])
  \/ e[1] = "tnr"   /\ ThreadMade(e[2])
  \/ e[1] = "fn"    /\ FnStart(e[2], e[3])
  \/ e[1] = "fnr"   /\ FnEnd(e[2])
  \/ e[1] = "tc"    /\ ThreadCancel(e[2], e[3])
  \/ e[1] = "tcr"   /\ ThreadCancelled(e[2], e[3])
  \/ e[1] = "td"    /\ ThreadDel(e[2], e[3])
  \/ e[1] = "tdr"   /\ ThreadDeleted(e[2], e[3])

DnsStep(e) ==
  \/ e[1] = "dnew"  /\ New(e[2], e[3])
  \/ e[1] = "res"   /\ Resolve(e[2], e[3], e[4], e[5])
  \/ e[1] = "resd"  /\ Resolved(e[2], e[3])
  \/ e[1] = "dcan"  /\ CancelDns(e[2])
  \/ e[1] = "dcand" /\ CancelDns(e[2]) /\ ~e[3]
  \/ e[1] = "ddel"  /\ CancelDns(e[2])
  \/ e[1] = "ddeld" /\ DelDns(e[2])
  \/ e[1] = "look"  /\ Look(e[2], e[3], e[4], e[5], e[6])
  \/ e[1] = "sync"  /\ Sync(e[2], e[3], e[4], e[5], FALSE)
  \/ e[1] = "one"   /\ Sync(e[2], e[3], e[4], 0, TRUE)
  \/ e[1] = "syncd" /\ Synced(e[2], e[3])
  \/ e[1] = "oned"  /\ SyncedOne(e[2], e[3], e[4])
  \/ e[1] = "dq"    /\ Asked(e[2], e[3])

Step(e) ==
  \/ WakeStep(e) /\ UNCHANGED dvars
  \/ DnsStep(e) /\ UNCHANGED wvars
  \/ e[1] = "dh"  /\ Answer(e[2], e[3], e[4]) /\ Other(e[3])
  \/ e[1] = "dhe" /\ e[3] /\ HandlerEnd(e[4]) /\ UNCHANGED dvars   \* the addresses given to the handler did not change
  \/ e[1] = "quiet" /\ WakeQuiet /\ DnsQuiet(Sleeping)
  \/ e[1] = "exited" /\ UNCHANGED mvars

TInit == TraceInitBase /\ WakeInit /\ DnsInit
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l, mvars>>
=============================================================================
