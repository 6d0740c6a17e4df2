------------------------------- MODULE Wake --------------------------------
(* What users of run loops from several threads see: watchers called from    *)
(* any thread, cancel of a loop from any thread, and crab::Thread.  One       *)
(* action per observable event; operations of other threads have a begin and *)
(* an end, everything in between may take effect at any moment.               *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Loops, Watchers, Threads
Many == 1000000

VARIABLES
  lp,    \* loop -> state, "none" "idle" "run"
  inh,   \* loop -> a handler is being executed
  cred,  \* loop -> how many returns of run() the cancels so far can still explain
  sure,  \* loop -> a cancel ended and no run() has returned since it began
  allow, \* loop -> how many handlers may still start (after a sure cancel)
  can,   \* cancels in progress: <<loop, who, began before the last return>>
  own,   \* watcher -> its loop, or -1
  unsat, \* watcher -> calls which began and for which the handler did not run yet
  tok,   \* watcher -> how many more times the handler may run
  open,  \* calls in progress <<call, watcher>>
  over,  \* watcher -> calls which overlap its last cancel
  th     \* crab::Thread -> "none" "making" "made" "gone"; function state in fnst
, fnst   \* "no" "in" "end"


WakeInit ==
  /\ lp = [x \in Loops |-> "none"]
  /\ inh = [x \in Loops |-> FALSE]
  /\ cred = [x \in Loops |-> 0]
  /\ sure = [x \in Loops |-> FALSE]
  /\ allow = [x \in Loops |-> Many]
  /\ can = {}
  /\ own = [w \in Watchers |-> -1]
  /\ unsat = [w \in Watchers |-> {}]
  /\ tok = [w \in Watchers |-> 0]
  /\ open = {}
  /\ over = [w \in Watchers |-> {}]
  /\ th = [t \in Threads |-> "none"]
  /\ fnst = [t \in Threads |-> "no"]

ThreadLoop(t) == 10 + t

-----------------------------------------------------------------------------
LoopNew(x) == /\ lp[x] = "none"
              /\ lp' = [lp EXCEPT ![x] = "idle"]
              /\ cred' = [cred EXCEPT ![x] = 0]
              /\ sure' = [sure EXCEPT ![x] = FALSE]
              /\ allow' = [allow EXCEPT ![x] = Many]
              /\ UNCHANGED <<inh, can, own, unsat, tok, open, over, th, fnst>>
LoopEnd(x) == /\ lp[x] = "idle"
              /\ lp' = [lp EXCEPT ![x] = "none"]
              /\ UNCHANGED <<inh, cred, sure, allow, can, own, unsat, tok, open, over, th, fnst>>

Run(x) == /\ lp[x] = "idle"
          /\ lp' = [lp EXCEPT ![x] = "run"]
          /\ UNCHANGED <<inh, cred, sure, allow, can, own, unsat, tok, open, over, th, fnst>>

\* run() returns only because of a cancel, and uses up at least one
Ret(x) == /\ lp[x] = "run" /\ ~inh[x]
          /\ cred[x] > 0
          /\ lp' = [lp EXCEPT ![x] = "idle"]
          /\ cred' = [cred EXCEPT ![x] = @ - 1]
          /\ sure' = [sure EXCEPT ![x] = FALSE]
          /\ allow' = [allow EXCEPT ![x] = Many]
          /\ can' = {IF c[1] = x THEN <<c[1], c[2], TRUE>> ELSE c : c \in can}
          /\ UNCHANGED <<inh, own, unsat, tok, open, over, th, fnst>>

CancelBegin(x, who) ==
  /\ can' = can \cup {<<x, who, FALSE>>}
  /\ cred' = [cred EXCEPT ![x] = @ + 1]
  /\ UNCHANGED <<lp, inh, sure, allow, own, unsat, tok, open, over, th, fnst>>
\* once a cancel returned, only a handler between the check and its start can still come
CancelEnd(x, who) ==
  /\ \E late \in BOOLEAN :
       /\ <<x, who, late>> \in can
       /\ can' = can \ {<<x, who, late>>}
       /\ IF late THEN UNCHANGED <<sure, allow>>
          ELSE /\ sure' = [sure EXCEPT ![x] = TRUE]
               /\ allow' = [allow EXCEPT ![x] =
                    LET n == IF inh[x] \/ lp[x] # "run" THEN 0 ELSE 1
                    IN  IF @ < n THEN @ ELSE n]
  /\ UNCHANGED <<lp, inh, cred, own, unsat, tok, open, over, th, fnst>>

-----------------------------------------------------------------------------
WatcherNew(w, x) ==
  /\ own[w] = -1
  /\ own' = [own EXCEPT ![w] = x]
  /\ unsat' = [unsat EXCEPT ![w] = {}]
  /\ tok' = [tok EXCEPT ![w] = 0]
  /\ UNCHANGED <<lp, inh, cred, sure, allow, can, open, over, th, fnst>>
\* both on the thread of the loop; a call in progress elsewhere at any moment of it may count as later
WatcherCancelBegin(w) ==
  /\ over' = [over EXCEPT ![w] = {c[1] : c \in {x \in open : x[2] = w}}]
  /\ UNCHANGED <<lp, inh, cred, sure, allow, can, own, unsat, tok, open, th, fnst>>
Forget(w) == /\ unsat' = [unsat EXCEPT ![w] = {}]
             /\ tok' = [tok EXCEPT ![w] = Cardinality(over[w])]
WatcherCancel(w) == /\ Forget(w)
                    /\ UNCHANGED <<lp, inh, cred, sure, allow, can, own, open, over, th, fnst>>
WatcherDel(w) == /\ Forget(w)
                 /\ own' = [own EXCEPT ![w] = -1]
                 /\ UNCHANGED <<lp, inh, cred, sure, allow, can, open, over, th, fnst>>
Call(c, w) ==
  /\ open' = open \cup {<<c, w>>}
  /\ unsat' = [unsat EXCEPT ![w] = @ \cup {c}]
  /\ tok' = [tok EXCEPT ![w] = @ + 1]
  /\ over' = [over EXCEPT ![w] = @ \cup {c}]
  /\ UNCHANGED <<lp, inh, cred, sure, allow, can, own, th, fnst>>
Called(c) ==
  /\ open' = {x \in open : x[1] # c}
  /\ UNCHANGED <<lp, inh, cred, sure, allow, can, own, unsat, tok, over, th, fnst>>

HandlerStart(x) ==
  /\ lp[x] = "run" /\ ~inh[x]
  /\ allow[x] > 0
  /\ inh' = [inh EXCEPT ![x] = TRUE]
  /\ allow' = [allow EXCEPT ![x] = IF @ = Many THEN Many ELSE @ - 1]
\* the handler of w starts in a thread whose loop is x; vis are the calls whose caller's writes it can see
Handler(w, x, vis) ==
  /\ own[w] = x /\ tok[w] > 0
  /\ HandlerStart(x)
  /\ tok' = [tok EXCEPT ![w] = @ - 1]
  /\ unsat' = [unsat EXCEPT ![w] = @ \ vis]
  /\ UNCHANGED <<lp, cred, sure, can, own, open, over, th, fnst>>
HandlerEnd(x) ==
  /\ inh[x]
  /\ inh' = [inh EXCEPT ![x] = FALSE]
  /\ UNCHANGED <<lp, cred, sure, allow, can, own, unsat, tok, open, over, th, fnst>>
\* a timer or an idle
Other(x) == HandlerStart(x) /\ UNCHANGED <<lp, cred, sure, can, own, unsat, tok, open, over, th, fnst>>

-----------------------------------------------------------------------------
ThreadNew(t) == /\ th[t] = "none"
                /\ th' = [th EXCEPT ![t] = "making"]
                /\ fnst' = [fnst EXCEPT ![t] = "no"]
                /\ lp' = [lp EXCEPT ![ThreadLoop(t)] = "idle"]
                /\ cred' = [cred EXCEPT ![ThreadLoop(t)] = 0]
                /\ sure' = [sure EXCEPT ![ThreadLoop(t)] = FALSE]
                /\ allow' = [allow EXCEPT ![ThreadLoop(t)] = Many]
                /\ UNCHANGED <<inh, can, own, unsat, tok, open, over>>
ThreadMade(t) == /\ th[t] = "making"
                 /\ th' = [th EXCEPT ![t] = "made"]
                 /\ UNCHANGED <<lp, inh, cred, sure, allow, can, own, unsat, tok, open, over, fnst>>
FnStart(t, loop) == /\ th[t] \in {"making", "made"} /\ fnst[t] = "no" /\ loop
                    /\ fnst' = [fnst EXCEPT ![t] = "in"]
                    /\ UNCHANGED <<lp, inh, cred, sure, allow, can, own, unsat, tok, open, over, th>>
FnEnd(t) == /\ fnst[t] = "in" /\ lp[ThreadLoop(t)] = "idle"
            /\ fnst' = [fnst EXCEPT ![t] = "end"]
            /\ UNCHANGED <<lp, inh, cred, sure, allow, can, own, unsat, tok, open, over, th>>
ThreadCancel(t, who)    == th[t] = "made" /\ CancelBegin(ThreadLoop(t), who)
ThreadCancelled(t, who) == CancelEnd(ThreadLoop(t), who)
ThreadDel(t, who) == th[t] = "made" /\ CancelBegin(ThreadLoop(t), who)
ThreadDeleted(t, who) ==
  /\ fnst[t] = "end"
  /\ th' = [th EXCEPT ![t] = "none"]
  /\ can' = {c \in can : c[1] # ThreadLoop(t)}
  /\ lp' = [lp EXCEPT ![ThreadLoop(t)] = "none"]
  /\ UNCHANGED <<inh, cred, sure, allow, own, unsat, tok, open, over, fnst>>

-----------------------------------------------------------------------------
\* every thread waits for something that will not come: nothing may be owed
Sleeping(x) == lp[x] = "run" /\ ~inh[x]
WakeQuiet ==
  /\ open = {} /\ can = {}
  /\ \A t \in Threads : th[t] # "making"
  /\ \A x \in Loops : Sleeping(x) => ~sure[x]
  /\ \A w \in Watchers : (own[w] # -1 /\ Sleeping(own[w])) => (unsat[w] = {})
  /\ cred' = [x \in Loops |-> IF Sleeping(x) THEN 0 ELSE cred[x]]
  /\ tok' = [w \in Watchers |-> IF own[w] # -1 /\ Sleeping(own[w]) THEN 0 ELSE tok[w]]
  /\ UNCHANGED <<lp, inh, sure, allow, can, own, unsat, open, over, th, fnst>>
=============================================================================
