------------------------------ MODULE LoopImpl -------------------------------
(* The run loop as it is designed: lazy timer postponement in a heap keyed by *)
(* fire_time, a list of triggered callables, the list of called watchers      *)
(* behind one wake-up event, and the idle rotation.  TLC checks that every    *)
(* behaviour of this design is a behaviour of the contract Loop, and every    *)
(* transition of its bounded state graph is printed as a script that is       *)
(* replayed in the real library (hist is hidden by the VIEW).                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Timers, Watchers, Idles, Delays, Advances, MaxOps, MaxWaits, MaxSigs, WithSlow

MS == 4
MaxSleep == 30 * 60 * 1000
WAKE == 90
CTL  == 91

VARIABLES clock, now, pc, wt,
  heap,     \* timer -> [in, ft, mft]   (is_set <=> in)
  trig,     \* triggered callables: WAKE, CTL, watchers
  fired,    \* called watchers, not yet triggered
  ready,    \* OS: descriptors with an undelivered edge: WAKE, CTL
  idl,      \* idle list
  stale,    \* inside an idle handler: now is refreshed when it returns
  ops, waits, sigs, hist,
  \* what the contract additionally remembers (auxiliary)
  woke, posted, maycnt, lastpoll, ctlcnt, owedv, seen

core == <<clock, now, pc, wt, heap, trig, fired, ready, idl, stale>>
aux  == <<woke, posted, maycnt, lastpoll, ctlcnt, owedv, seen>>
cnt  == <<ops, waits, sigs>>
vars == <<core, aux, cnt, hist>>

Rel(x) == x - clock          \* hide absolute time: only differences matter
view == <<Rel(now), stale, pc, wt, [t \in Timers |-> IF heap[t].in THEN <<Rel(heap[t].ft), Rel(heap[t].mft)>> ELSE <<>>],
          trig, fired, ready, idl, cnt, posted, lastpoll, owedv, maycnt, ctlcnt, Rel(woke)>>

Init ==
  /\ clock = 0 /\ now = 0 /\ pc = "app" /\ wt = 0
  /\ heap = [t \in Timers |-> [in |-> FALSE, ft |-> 0, mft |-> 0]]
  /\ trig = <<>> /\ fired = <<>> /\ ready = <<>> /\ idl = <<>> /\ stale = FALSE
  /\ ops = 0 /\ waits = 0 /\ sigs = 0 /\ hist = <<>>
  /\ woke = 0 /\ posted = [t \in Timers |-> FALSE] /\ maycnt = [w \in Watchers |-> 0]
  /\ lastpoll = FALSE /\ ctlcnt = 0 /\ owedv = {} /\ seen = 0

Push(s, x)    == IF \E i \in DOMAIN s : s[i] = x THEN s ELSE Append(s, x)
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Rec(x)        == hist' = Append(hist, x)
Op(x)         == /\ pc = "app" /\ ops < MaxOps /\ ops' = ops + 1 /\ Rec(x)
                 /\ UNCHANGED <<pc, waits, sigs>>

Arm(t, d) ==
  /\ Op(<<"arm", t, d>>)
  /\ LET due == now + d h == heap[t] IN
       heap' = [heap EXCEPT ![t] =
         IF h.in /\ due >= h.ft THEN [h EXCEPT !.mft = due] ELSE [in |-> TRUE, ft |-> due, mft |-> due]]
       /\ posted' = [posted EXCEPT ![t] = h.in /\ (@ \/ due > h.mft)]
  /\ UNCHANGED <<stale, seen, clock, now, wt, trig, fired, ready, idl, woke, maycnt, lastpoll, ctlcnt, owedv>>
Cancel(t) ==
  /\ Op(<<"cancel", t>>)
  /\ heap[t].in
  /\ heap' = [heap EXCEPT ![t] = [in |-> FALSE, ft |-> 0, mft |-> 0]]
  /\ posted' = [posted EXCEPT ![t] = FALSE]
  /\ UNCHANGED <<stale, seen, clock, now, wt, trig, fired, ready, idl, woke, maycnt, lastpoll, ctlcnt, owedv>>
On(i) ==
  /\ Op(<<"ion", i>>)
  /\ idl' = Push(idl, i)
  /\ UNCHANGED <<stale, clock, now, wt, heap, trig, fired, ready, aux>>
OffI(i) ==
  /\ Op(<<"ioff", i>>)
  /\ idl' = Without(idl, i)
  /\ UNCHANGED <<stale, clock, now, wt, heap, trig, fired, ready, aux>>
CallW(w) ==
  /\ fired' = Push(fired, w) /\ ready' = Push(ready, WAKE)
  /\ maycnt' = [maycnt EXCEPT ![w] = @ + 1]
  /\ owedv' = owedv \cup {w}
AppCall(w) ==
  /\ Op(<<"wcall", w>>) /\ CallW(w)
  /\ UNCHANGED <<stale, seen, clock, now, wt, heap, trig, idl, woke, posted, lastpoll, ctlcnt>>
AppCancelW(w) ==
  /\ Op(<<"wcancel", w>>)
  /\ fired' = Without(fired, w) /\ trig' = Without(trig, w)
  /\ maycnt' = [maycnt EXCEPT ![w] = 0] /\ owedv' = owedv \ {w}
  /\ UNCHANGED <<stale, seen, clock, now, wt, heap, ready, idl, woke, posted, lastpoll, ctlcnt>>
Slow ==
  /\ WithSlow /\ Op(<<"slow", 5>>)
  /\ clock' = clock + 5
  /\ UNCHANGED <<stale, now, wt, heap, trig, fired, ready, idl, aux>>
Return ==
  /\ pc = "app" /\ pc' = "loop"
  /\ now' = IF stale THEN clock ELSE now
  /\ stale' = FALSE
  /\ UNCHANGED <<clock, wt, heap, trig, fired, ready, idl, aux, cnt, hist>>

H == /\ pc' = "app" /\ Rec(<<"H">>) /\ UNCHANGED cnt

\* one triggered callable
Triggered ==
  /\ pc = "loop" /\ trig # <<>>
  /\ LET c == Head(trig) IN
     CASE c = WAKE ->
            /\ trig' = LET F[k \in 0..Len(fired)] == IF k = 0 THEN Tail(trig) ELSE Push(F[k-1], fired[k]) IN F[Len(fired)]
            /\ fired' = <<>>
            /\ UNCHANGED <<stale, pc, hist, cnt, clock, now, wt, heap, ready, idl, aux>>
       [] c = CTL ->
            /\ trig' = Tail(trig) /\ ctlcnt' = 0 /\ H /\ lastpoll' = FALSE
            /\ seen' = now /\ UNCHANGED <<stale, clock, now, wt, heap, fired, ready, idl, woke, posted, maycnt, owedv>>
       [] OTHER ->
            /\ trig' = Tail(trig) /\ H /\ lastpoll' = FALSE
            /\ maycnt' = [maycnt EXCEPT ![c] = @ - 1] /\ owedv' = owedv \ {c}
            /\ seen' = now /\ UNCHANGED <<stale, clock, now, wt, heap, fired, ready, idl, woke, posted, ctlcnt>>

Due == {t \in Timers : heap[t].in /\ heap[t].ft <= now}
Front(S) == {t \in S : \A u \in S : heap[t].ft <= heap[u].ft}
TimerStep ==
  /\ pc = "loop" /\ trig = <<>> /\ Due # {}
  /\ \E t \in Front(Due) :
       IF heap[t].mft > now
       THEN /\ heap' = [heap EXCEPT ![t].ft = heap[t].mft]
            /\ UNCHANGED <<stale, pc, hist, cnt, clock, now, wt, trig, fired, ready, idl, aux>>
       ELSE /\ heap' = [heap EXCEPT ![t] = [in |-> FALSE, ft |-> 0, mft |-> 0]]
            /\ posted' = [posted EXCEPT ![t] = FALSE] /\ lastpoll' = FALSE
            /\ H
            /\ seen' = now /\ UNCHANGED <<stale, clock, now, wt, trig, fired, ready, idl, woke, maycnt, ctlcnt, owedv>>

Set == {t \in Timers : heap[t].in}
TimeoutMs == IF idl # <<>> THEN 0 ELSE IF Set = {} THEN MaxSleep
             ELSE LET t == CHOOSE t \in Front(Set) : TRUE IN 1 + (heap[t].ft - now) \div MS
Collect(r, q) == LET F[k \in 0..Len(r)] == IF k = 0 THEN q ELSE Push(F[k-1], r[k]) IN F[Len(r)]

StepReady ==      \* the OS has events already
  /\ pc = "loop" /\ trig = <<>> /\ Due = {} /\ ready # <<>>
  /\ trig' = Collect(ready, trig) /\ ready' = <<>>
  /\ now' = clock /\ woke' = clock /\ lastpoll' = FALSE
  /\ UNCHANGED <<stale, seen, clock, pc, wt, heap, fired, idl, posted, maycnt, ctlcnt, owedv, cnt, hist>>
StepWait ==
  /\ pc = "loop" /\ trig = <<>> /\ Due = {} /\ ready = <<>>
  /\ waits < MaxWaits /\ waits' = waits + 1
  /\ pc' = "wait" /\ wt' = TimeoutMs
  /\ maycnt' = [w \in Watchers |-> 0] /\ lastpoll' = FALSE
  /\ Rec(<<"E">>)
  /\ seen' = now /\ UNCHANGED <<stale, clock, now, heap, trig, fired, ready, idl, ops, sigs, woke, posted, ctlcnt, owedv>>
EnvCall(w) ==
  /\ pc = "wait" /\ sigs < MaxSigs /\ sigs' = sigs + 1
  /\ CallW(w) /\ Rec(<<"wcall", w>>)
  /\ UNCHANGED <<stale, seen, clock, now, pc, wt, heap, trig, idl, woke, posted, lastpoll, ctlcnt, ops, waits>>
EnvSig ==
  /\ pc = "wait" /\ sigs < MaxSigs /\ sigs' = sigs + 1
  /\ ready' = Push(ready, CTL) /\ ctlcnt' = ctlcnt + 1 /\ Rec(<<"sig">>)
  /\ UNCHANGED <<stale, seen, clock, now, pc, wt, heap, trig, fired, idl, woke, posted, maycnt, lastpoll, ops, waits, owedv>>
WakeUp(d) ==       \* d = -1: the full timeout
  /\ pc = "wait" /\ pc' = "woken"
  /\ d >= 0 => d <= wt * MS
  /\ clock' = clock + (IF d >= 0 THEN d ELSE wt * MS)
  /\ d < 0 => ready = <<>>
  /\ Rec(IF d >= 0 THEN <<"adv", d>> ELSE <<"full">>)
  /\ trig' = Collect(ready, trig) /\ ready' = <<>>
  /\ woke' = clock' /\ lastpoll' = (wt = 0 /\ ready = <<>>)
  /\ UNCHANGED <<stale, seen, now, wt, heap, fired, idl, posted, maycnt, ctlcnt, owedv, cnt>>
AfterWait ==
  /\ pc = "woken"
  /\ IF wt = 0 /\ trig = <<>> /\ idl # <<>>
     THEN /\ idl' = Append(Tail(idl), Head(idl)) /\ H /\ seen' = now /\ lastpoll' = FALSE
          /\ stale' = TRUE /\ now' = now
     ELSE pc' = "loop" /\ now' = clock /\ stale' = stale /\ UNCHANGED <<seen, idl, lastpoll, hist, cnt>>
  /\ UNCHANGED <<clock, wt, heap, trig, fired, ready, woke, posted, maycnt, ctlcnt, owedv>>

Next ==
  \/ \E t \in Timers, d \in Delays : Arm(t, d)
  \/ \E t \in Timers : Cancel(t)
  \/ \E i \in Idles : On(i) \/ OffI(i)
  \/ \E w \in Watchers : AppCall(w) \/ AppCancelW(w) \/ EnvCall(w)
  \/ Slow \/ Return \/ Triggered \/ TimerStep \/ StepReady \/ StepWait \/ EnvSig \/ AfterWait
  \/ \E d \in Advances \cup {-1} : WakeUp(d)

Spec == Init /\ [][Next]_vars

\* ---- refinement -----------------------------------------------------------
C == INSTANCE Loop WITH
  ph     <- CASE pc = "app" -> "app" [] pc = "wait" -> "wait" [] OTHER -> "loop",
  timer  <- [t \in Timers |-> IF heap[t].in THEN [set |-> TRUE, due |-> heap[t].mft, post |-> posted[t]]
                              ELSE [set |-> FALSE, due |-> 0, post |-> FALSE]],
  now    <- seen, owed <- owedv,
  may    <- maycnt, active <- idl, polled <- lastpoll, ctl <- ctlcnt

\* one step of the design is one of the contract's actions, or invisible
CNext ==
  \/ \E t \in Timers : C!Arm(t, heap'[t].mft) \/ C!CancelTimer(t) \/ C!Fire(t, seen')
  \/ \E i \in Idles : C!Activate(i) \/ C!Deactivate(i) \/ C!IRun(i, seen')
  \/ \E w \in Watchers : C!WCall(w) \/ C!WCancel(w) \/ C!WRun(w, seen')
  \/ C!Signal \/ C!Pass(clock') \/ C!Return \/ C!CtlRun(seen')
  \/ C!Wait(wt', seen') \/ C!Wake(clock', IF lastpoll' THEN 0 ELSE 1) \/ C!Poll(wt, 1)
Refines == [][CNext]_(C!vars)
Inv == C!TypeOK /\ C!NoSleepOnWork
\* a watcher that was called has not been forgotten by the lists
Remembered == \A w \in owedv : (\E i \in DOMAIN fired : fired[i] = w) \/ (\E i \in DOMAIN trig : trig[i] = w)
WakePending == fired # <<>> => (\E i \in DOMAIN ready : ready[i] = WAKE) \/ (\E i \in DOMAIN trig : trig[i] = WAKE)

Script == PrintT(ToJson(hist'))
=============================================================================
