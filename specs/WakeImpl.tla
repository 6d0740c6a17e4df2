----------------------------- MODULE WakeImpl ------------------------------
(* The wake-up design of the run loop, step by step: a mutex-protected list  *)
(* of called watchers, an event descriptor reported once per edge, the list  *)
(* of triggered callables of the loop thread, and the stop flag.  Several    *)
(* threads call watchers and cancel the loop at any moment.  The contract    *)
(* Wake runs beside it as a monitor: an observable step it does not allow    *)
(* sets bad.  Every transition is printed as a schedule for the real code.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Which      \* the set of programs to explore

VARIABLES lp, inh, cred, sure, allow, can, own, unsat, tok, open, over, th, fnst
C == INSTANCE Wake WITH Loops <- {1, 11}, Watchers <- {1, 2}, Threads <- {1}
cvars == <<lp, inh, cred, sure, allow, can, own, unsat, tok, open, over, th, fnst>>

VARIABLES prog,
  todo, sub,    \* thread -> remaining operations; stage of the first
  at,           \* the loop thread: "app" "check" "read" "move" "hnd"  "wait"
  hq, hcnt,     \* what the running handler still does; how often each handler ran
  fired, trig, efd, edge, quit,
  pushed, seen, \* calls in the list so far; those the loop thread can see
  ncall, bad, hist
ivars == <<prog, todo, sub, at, hq, hcnt, fired, trig, efd, edge, quit, pushed, seen, ncall>>

\* Threads of a program: the first one owns the loop, the last one stops it when nothing moves any more.
call(w) == <<"call", w>>
wcan(w) == <<"wcan", w>>
lcan    == <<"lcan", 1>>
run     == <<"run", 1>>
quiet   == <<"quiet", 1>>
Progs == <<
  [t |-> <<<<run>>, <<call(1)>>, <<call(1)>>, <<quiet, lcan>>>>, h |-> <<<<>>, <<>>>>],
  [t |-> <<<<run>>, <<call(1), call(2)>>, <<call(2)>>, <<quiet, lcan>>>>, h |-> <<<<<<wcan(2)>>>>, <<<<wcan(1)>>>>>>],
  [t |-> <<<<call(1), wcan(1), run>>, <<call(1), call(2)>>, <<quiet, lcan>>>>, h |-> <<<<<<call(2), wcan(2), call(2)>>>>, <<<<>>>>>>],
  [t |-> <<<<run, run>>, <<call(1), lcan>>, <<lcan>>, <<quiet, lcan, quiet, lcan>>>>, h |-> <<<<<<lcan, call(1)>>>>, <<>>>>],
  [t |-> <<<<run, wcan(1), run>>, <<call(1), call(1)>>, <<lcan>>, <<quiet, lcan, quiet, lcan>>>>, h |-> <<<<>>, <<>>>>],
  [t |-> <<<<call(1), run>>, <<call(2), lcan>>, <<call(2)>>, <<quiet, lcan>>>>, h |-> <<<<<<call(2), wcan(2)>>>>, <<<<call(1)>>>>>>]
>>
P  == Progs[prog]
N  == Len(P.t)
Ts == 1..N

Init ==
  /\ prog \in Which
  /\ todo = [i \in 1..Len(Progs[prog].t) |-> Progs[prog].t[i]]
  /\ sub = [i \in 1..Len(Progs[prog].t) |-> 0]
  /\ at = "app" /\ hq = <<>> /\ hcnt = <<0, 0>>
  /\ fired = <<>> /\ trig = <<>> /\ efd = FALSE /\ edge = FALSE /\ quit = FALSE
  /\ pushed = {} /\ seen = {} /\ ncall = 0 /\ bad = FALSE /\ hist = <<>>
  /\ lp = (1 :> "idle" @@ 11 :> "none")
  /\ inh = [x \in {1, 11} |-> FALSE] /\ cred = [x \in {1, 11} |-> 0]
  /\ sure = [x \in {1, 11} |-> FALSE] /\ allow = [x \in {1, 11} |-> C!Many]
  /\ can = {} /\ own = (1 :> 1 @@ 2 :> 1)
  /\ unsat = (1 :> {} @@ 2 :> {}) /\ tok = (1 :> 0 @@ 2 :> 0) /\ open = {} /\ over = (1 :> {} @@ 2 :> {})
  /\ th = (1 :> "none") /\ fnst = (1 :> "no")

Mon(A)   == IF ENABLED A THEN A /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED cvars
Silent   == UNCHANGED <<cvars, bad>>
Tok(t, k) == hist' = Append(hist, <<t - 1, k>>)
NoTok    == hist' = hist
Push(s, x)    == IF \E i \in DOMAIN s : s[i] = x THEN s ELSE Append(s, x)
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)

\* the operation a thread is in, and what happens when it is over
InH(t)  == t = 1 /\ at = "hnd"
Can(t)  == IF t = 1 THEN at \in {"app", "hnd"} ELSE TRUE
List(t) == IF InH(t) THEN hq ELSE todo[t]
Cur(t)  == Head(List(t))
Has(t)  == Can(t) /\ List(t) # <<>>
Stage(t, n) == sub' = [sub EXCEPT ![t] = n] /\ UNCHANGED <<todo, hq>>
Finish(t)   == /\ sub' = [sub EXCEPT ![t] = 0]
               /\ IF InH(t) THEN hq' = Tail(hq) /\ UNCHANGED todo
                  ELSE todo' = [todo EXCEPT ![t] = Tail(@)] /\ UNCHANGED hq

\* calls are numbered by thread and position so that the number does not depend on the order
CallId(t) == IF InH(t) THEN 1000 * (hcnt[1] + hcnt[2]) + Len(hq) ELSE 100 * t + 10 * Len(todo[t])

Call(t) ==
  /\ Has(t) /\ Cur(t)[1] = "call"
  /\ LET w == Cur(t)[2] c == CallId(t) IN
     \/ /\ sub[t] = 0 /\ Stage(t, 1) /\ Mon(C!Call(c, w)) /\ NoTok
        /\ UNCHANGED <<fired, efd, edge, pushed, seen>>
     \/ /\ sub[t] = 1 /\ Stage(t, 2) /\ Silent /\ Tok(t, "L")
        /\ fired' = Push(fired, w) /\ pushed' = pushed \cup {c}
        /\ seen' = IF t = 1 THEN seen \cup {c} ELSE seen
        /\ UNCHANGED <<efd, edge>>
     \/ /\ sub[t] = 2 /\ Finish(t) /\ Mon(C!Called(c)) /\ Tok(t, "W")
        /\ efd' = TRUE /\ edge' = TRUE
        /\ UNCHANGED <<fired, pushed, seen>>
  /\ UNCHANGED <<prog, at, hcnt, trig, quit, ncall>>

CancelW(t) ==
  /\ t = 1 /\ Has(t) /\ Cur(t)[1] = "wcan"
  /\ LET w == Cur(t)[2] IN
     \/ /\ sub[t] = 0 /\ Stage(t, 1) /\ Mon(C!WatcherCancelBegin(w)) /\ NoTok
        /\ trig' = Without(trig, w) /\ UNCHANGED fired
     \/ /\ sub[t] = 1 /\ Finish(t) /\ Mon(C!WatcherCancel(w)) /\ Tok(t, "L")
        /\ fired' = Without(fired, w) /\ UNCHANGED trig
  /\ UNCHANGED <<prog, at, hcnt, efd, edge, quit, pushed, seen, ncall>>

CancelL(t) ==
  /\ Has(t) /\ Cur(t)[1] = "lcan"
  /\ \/ sub[t] = 0 /\ Stage(t, 1) /\ Mon(C!CancelBegin(1, t)) /\ NoTok /\ UNCHANGED <<quit, efd, edge>>
     \/ sub[t] = 1 /\ Stage(t, 2) /\ Silent /\ Tok(t, "A") /\ quit' = TRUE /\ UNCHANGED <<efd, edge>>
     \/ sub[t] = 2 /\ Finish(t) /\ Mon(C!CancelEnd(1, t)) /\ Tok(t, "W") /\ efd' = TRUE /\ edge' = TRUE /\ UNCHANGED quit
  /\ UNCHANGED <<prog, at, hcnt, fired, trig, pushed, seen, ncall>>

-----------------------------------------------------------------------------
RunBegin ==
  /\ at = "app" /\ todo[1] # <<>> /\ Head(todo[1])[1] = "run" /\ sub[1] = 0
  /\ at' = "check" /\ Mon(C!Run(1)) /\ NoTok
  /\ UNCHANGED <<prog, todo, sub, hq, hcnt, fired, trig, efd, edge, quit, pushed, seen, ncall>>
CheckQuit ==
  /\ at = "check" /\ quit /\ at' = "reset" /\ Silent /\ Tok(1, "A")
  /\ UNCHANGED <<prog, todo, sub, hq, hcnt, fired, trig, efd, edge, quit, pushed, seen, ncall>>
Reset ==
  /\ at = "reset" /\ at' = "app" /\ quit' = FALSE /\ todo' = [todo EXCEPT ![1] = Tail(@)]
  /\ Mon(C!Ret(1)) /\ Tok(1, "A")
  /\ UNCHANGED <<prog, sub, hq, hcnt, fired, trig, efd, edge, pushed, seen, ncall>>
Dispatch ==
  /\ at = "check" /\ ~quit /\ trig # <<>>
  /\ trig' = Tail(trig) /\ Tok(1, "A")
  /\ LET x == Head(trig) IN
     IF x = 0 THEN at' = "read" /\ Silent /\ UNCHANGED <<hq, hcnt>>
     ELSE /\ at' = "hnd"
          /\ hcnt' = [hcnt EXCEPT ![x] = @ + 1]
          /\ hq' = IF hcnt[x] + 1 <= Len(P.h[x]) THEN P.h[x][hcnt[x] + 1] ELSE <<>>
          /\ Mon(C!Handler(x, 1, seen))
  /\ UNCHANGED <<prog, todo, sub, fired, efd, edge, quit, pushed, seen, ncall>>
ToWait ==
  /\ at = "check" /\ ~quit /\ trig = <<>> /\ at' = "wait" /\ Silent /\ Tok(1, "A")
  /\ UNCHANGED <<prog, todo, sub, hq, hcnt, fired, trig, efd, edge, quit, pushed, seen, ncall>>
WakeUp ==
  /\ at = "wait" /\ edge /\ efd
  /\ edge' = FALSE /\ trig' = Append(trig, 0) /\ at' = "check" /\ Silent /\ Tok(1, "E")
  /\ UNCHANGED <<prog, todo, sub, hq, hcnt, fired, efd, quit, pushed, seen, ncall>>
Read ==
  /\ at = "read" /\ efd' = FALSE /\ at' = "move" /\ Silent /\ Tok(1, "R")
  /\ UNCHANGED <<prog, todo, sub, hq, hcnt, fired, trig, edge, quit, pushed, seen, ncall>>
Move ==
  /\ at = "move" /\ at' = "check" /\ Silent /\ Tok(1, "L")
  /\ trig' = trig \o SelectSeq(fired, LAMBDA w : \A i \in DOMAIN trig : trig[i] # w) /\ fired' = <<>>
  /\ seen' = pushed
  /\ UNCHANGED <<prog, todo, sub, hq, hcnt, efd, edge, quit, pushed, ncall>>
HEnd ==
  /\ at = "hnd" /\ hq = <<>> /\ at' = "check" /\ Mon(C!HandlerEnd(1)) /\ NoTok
  /\ UNCHANGED <<prog, todo, sub, hq, hcnt, fired, trig, efd, edge, quit, pushed, seen, ncall>>
\* the last thread waits until nobody else can move
Idle(t) == \/ t # 1 /\ todo[t] = <<>>
           \/ t = 1 /\ ((at = "wait" /\ ~(edge /\ efd)) \/ (at = "app" /\ todo[1] = <<>>))
Quiet ==
  /\ todo[N] # <<>> /\ Cur(N)[1] = "quiet"
  /\ \A t \in 1..(N - 1) : Idle(t)
  /\ Finish(N) /\ Mon(C!WakeQuiet) /\ NoTok
  /\ UNCHANGED <<prog, at, hcnt, fired, trig, efd, edge, quit, pushed, seen, ncall>>

Next == ~bad /\ ( (\E t \in Ts : Call(t) \/ CancelW(t) \/ CancelL(t))
                  \/ RunBegin \/ CheckQuit \/ Reset \/ Dispatch \/ ToWait \/ WakeUp \/ Read \/ Move \/ HEnd \/ Quiet )
Spec == Init /\ [][Next]_<<ivars, cvars, bad, hist>>
view == <<ivars, cvars, bad>>

NotBad == ~bad
\* no wake-up is lost in the design itself
NoLostWakeup == (at = "wait" /\ fired # <<>> /\ ~(edge /\ efd)) => \E t \in Ts : sub[t] = 2
\* everybody gets to the end
Done == \A t \in Ts : todo[t] = <<>>
NoDeadlock == Done \/ ENABLED Next \/ bad
Script == PrintT(ToJson(<<prog, hist'>>))
=============================================================================
