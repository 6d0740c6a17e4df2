-------------------------------- MODULE Loop --------------------------------
(* Contract of the run loop as the application and the OS see it (C01, C05,   *)
(* and the single-threaded part of C02, C03).  Time is counted in ticks of    *)
(* 0.25 ms, so sub-millisecond delays exist; OS waits take milliseconds.      *)
(* Every action is one observable event: an API call of the application, a    *)
(* handler being entered or left, or the loop starting / ending an OS wait.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Timers, Watchers, Idles

MS == 4                       \* ticks per millisecond

VARIABLES
  clock,    \* real time
  now,      \* the loop's own time, refreshed at most once per iteration
  woke,     \* real time when the last OS wait ended (now is not older than that)
  ph,       \* "loop": between handlers, "app": inside a handler, "wait": inside an OS wait
  wt,       \* timeout of the current OS wait, ms
  timer,    \* timer -> [set, due, post]; post: postponed while set
  owed,     \* watchers that were called and whose handler has not run since
  may,      \* watcher -> how often its handler may still run
  active,   \* active idles, next one first
  polled,   \* the last thing the loop did was an OS poll that found nothing
  ctl       \* signals that arrived (control events of the harness)

vars == <<clock, now, woke, ph, wt, timer, owed, may, active, polled, ctl>>

Off == [set |-> FALSE, due |-> 0, post |-> FALSE]

Init == /\ clock = 0 /\ now = 0 /\ woke = 0 /\ ph = "app" /\ wt = 0
        /\ timer = [t \in Timers |-> Off]
        /\ owed = {} /\ may = [w \in Watchers |-> 0]
        /\ active = <<>> /\ polled = FALSE /\ ctl = 0

Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
InSeq(s, x)   == \E i \in DOMAIN s : s[i] = x

\* ---- application calls (only inside handlers or before the loop runs) -----
Arm(t, due) ==                      \* also re-arm: the latest call decides
  /\ ph = "app"
  /\ timer' = [timer EXCEPT ![t] =
       [set |-> TRUE, due |-> due, post |-> @.set /\ (@.post \/ due > @.due)]]
  /\ UNCHANGED <<clock, now, woke, ph, wt, owed, may, active, polled, ctl>>
CancelTimer(t) ==                   \* cancel, destruction
  /\ ph = "app"
  /\ timer' = [timer EXCEPT ![t] = Off]
  /\ UNCHANGED <<clock, now, woke, ph, wt, owed, may, active, polled, ctl>>
Activate(i) ==                      \* no effect on an idle that is already active
  /\ ph = "app"
  /\ active' = IF InSeq(active, i) THEN active ELSE Append(active, i)
  /\ UNCHANGED <<clock, now, woke, ph, wt, timer, owed, may, polled, ctl>>
Deactivate(i) ==
  /\ ph = "app"
  /\ active' = Without(active, i)
  /\ UNCHANGED <<clock, now, woke, ph, wt, timer, owed, may, polled, ctl>>
WCall(w) ==                         \* any thread, any moment
  /\ owed' = owed \cup {w} /\ may' = [may EXCEPT ![w] = @ + 1]
  /\ UNCHANGED <<clock, now, woke, ph, wt, timer, active, polled, ctl>>
WCancel(w) ==
  /\ ph = "app"
  /\ owed' = owed \ {w} /\ may' = [may EXCEPT ![w] = 0]
  /\ UNCHANGED <<clock, now, woke, ph, wt, timer, active, polled, ctl>>
Signal ==
  /\ ctl' = ctl + 1
  /\ UNCHANGED <<clock, now, woke, ph, wt, timer, owed, may, active, polled>>
Pass(c) ==                          \* time passes (slow handler or OS wait)
  /\ c >= clock /\ clock' = c
  /\ UNCHANGED <<now, woke, ph, wt, timer, owed, may, active, polled, ctl>>
Return ==                           \* a handler returns to the loop
  /\ ph = "app" /\ ph' = "loop"
  /\ UNCHANGED <<clock, now, woke, wt, timer, owed, may, active, polled, ctl>>

\* ---- handlers -------------------------------------------------------------
EnterOld(n) == /\ ph = "loop" /\ ph' = "app"
               /\ n >= now /\ n <= clock /\ now' = n
Enter(n) == EnterOld(n) /\ n >= woke     \* the loop's time is refreshed after every OS wait

\* never early, only while set, exactly once per arming, in due order
Fire(t, n) ==
  /\ Enter(n)
  /\ timer[t].set /\ timer[t].due <= n
  /\ ~timer[t].post =>
       \A u \in Timers : timer[u].set /\ ~timer[u].post => timer[u].due >= timer[t].due
  /\ timer' = [timer EXCEPT ![t] = Off]
  /\ polled' = FALSE
  /\ UNCHANGED <<clock, woke, wt, owed, may, active, ctl>>

WRun(w, n) ==
  /\ Enter(n)
  /\ may[w] > 0 /\ may' = [may EXCEPT ![w] = @ - 1]
  /\ owed' = owed \ {w}
  /\ polled' = FALSE
  /\ UNCHANGED <<clock, woke, wt, timer, active, ctl>>

\* strict rotation, and only when the poll just before found nothing to do
IRun(i, n) ==                        \* (idle handlers run before the refresh)
  /\ EnterOld(n)
  /\ polled /\ polled' = FALSE
  /\ active # <<>> /\ Head(active) = i
  /\ active' = Append(Tail(active), i)
  /\ UNCHANGED <<clock, woke, wt, timer, owed, may, ctl>>

CtlRun(n) ==                         \* merged signals
  /\ Enter(n)
  /\ ctl > 0 /\ ctl' = 0
  /\ polled' = FALSE
  /\ UNCHANGED <<clock, woke, wt, timer, owed, may, active>>

\* ---- the loop and the OS --------------------------------------------------
\* The loop hands control to the OS although nothing is ready there.
Wait(ms, n) ==
  /\ ph = "loop" /\ ph' = "wait" /\ wt' = ms
  /\ n >= now /\ n >= woke /\ n <= clock /\ now' = n
  /\ \A t \in Timers : timer[t].set => timer[t].due > n            \* no due timer left behind
  /\ \A t \in Timers : timer[t].set => ms <= (timer[t].due - n) \div MS + 1
  /\ active # <<>> => ms = 0 /\ ~polled           \* never sleeps, and an empty poll runs an idle
  /\ owed = {} /\ ctl = 0                                          \* nothing lost
  /\ may' = [w \in Watchers |-> 0]                                 \* and nothing left to invent
  /\ polled' = FALSE
  /\ UNCHANGED <<clock, woke, timer, owed, active, ctl>>
\* n events were returned by the OS
Wake(c, n) ==
  /\ ph = "wait" /\ ph' = "loop"
  /\ c >= clock /\ clock' = c /\ woke' = c
  /\ polled' = (wt = 0 /\ n = 0)
  /\ UNCHANGED <<now, wt, timer, owed, may, active, ctl>>
\* the OS had events at once
Poll(ms, n) ==
  /\ ph = "loop" /\ n > 0
  /\ polled' = FALSE /\ woke' = clock
  /\ UNCHANGED <<clock, now, ph, wt, timer, owed, may, active, ctl>>
\* the loop was told to quit with nothing left to do
End ==
  /\ ph = "loop"
  /\ owed = {} /\ ctl = 0 /\ active = <<>>
  /\ \A t \in Timers : ~timer[t].set
  /\ UNCHANGED vars

\* ---- invariants -----------------------------------------------------------
TypeOK == /\ ph \in {"loop", "app", "wait"} /\ now <= clock /\ woke <= clock
          /\ \A i, j \in DOMAIN active : active[i] = active[j] => i = j
          /\ \A w \in owed : may[w] > 0
\* never asleep on a due timer, an owed watcher call or an active idle
NoSleepOnWork ==
  ph = "wait" /\ wt # 0 =>
    /\ active = <<>>
    /\ \A t \in Timers : timer[t].set => timer[t].due > now
=============================================================================
