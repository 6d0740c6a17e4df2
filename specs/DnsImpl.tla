------------------------------- MODULE DnsImpl -------------------------------
(* DNS resolving as it is designed, one synchronisation operation at a time:   *)
(* a worker thread with a mutex-protected queue and the request in execution,  *)
(* resolvers on a loop thread whose answers arrive through a watcher, a thread *)
(* that cancels the loop at any moment, and the end of the program.  The       *)
(* contract Dns runs beside it as a monitor.  Every transition is printed as a *)
(* schedule for the real code.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Which
VARIABLES res, reqs, nlook, sy, bad
D == INSTANCE Dns WITH Resolvers <- {1, 2}
cvars == <<res, reqs, nlook, sy>>

VARIABLES prog,
  todo, hq, hcnt, hr,  \* the loop thread: operations left, those of the running handler, handler runs so far, whose handler
  sub, at,             \* stage of its operation; "app" "hnd" "check" "read" "move" "enter" "wait" "reset" "join" "exit1" "exit2" "exit3" "end"
  stop,                \* the other threads: remaining steps of cancelling the loop
  open, queue, exec,   \* resolving flags; work queue; request being executed (0: none)
  got,                 \* resolver -> answer stored in it
  job,                 \* what the worker works on
  dmx,                 \* owner of the worker's mutex: 0, 1 (loop thread), 2 (worker)
  wk, sig,             \* the worker: "none" "lock" "cond" "look" "lock2" "call" "wake" "done"; notified
  wquit,
  fired, trig, efd, edge, quit,
  n,                   \* requests so far; the last one of either resolver
  hist
ivars == <<prog, todo, hq, hcnt, hr, sub, at, stop, open, queue, exec, got, job, dmx, wk, sig, wquit, fired, trig, efd, edge, quit, n>>
view  == <<ivars, cvars, bad>>

rs(r)   == <<"res", r>>
dcan(r) == <<"dcan", r>>
ddel(r) == <<"ddel", r>>
run     == <<"run", 0>>
\* m: the loop thread; h: the handlers' operations, one list per run; early: a thread that cancels the loop at once
Progs == <<
  [m |-> <<rs(1), run, ddel(1), ddel(2)>>, h |-> <<<<>>, <<>>>>, early |-> 0],
  [m |-> <<rs(1), rs(2), run, ddel(1), ddel(2)>>, h |-> <<<<<<rs(1)>>>>, <<>>>>, early |-> 0],
  [m |-> <<rs(1), dcan(1), rs(1), run, ddel(2), ddel(1)>>, h |-> <<<<>>, <<>>>>, early |-> 0],
  [m |-> <<rs(1), rs(1), rs(2), run, ddel(1), ddel(2)>>, h |-> <<<<<<dcan(1)>>>>, <<<<rs(1), dcan(1)>>>>>>, early |-> 0],
  [m |-> <<rs(1), rs(2), run, ddel(1), ddel(2)>>, h |-> <<<<<<dcan(2)>>>>, <<<<dcan(1)>>>>>>, early |-> 0],
  [m |-> <<rs(1), run, rs(2), dcan(1), run, ddel(2), ddel(1)>>, h |-> <<<<>>, <<>>>>, early |-> 1],
  [m |-> <<rs(1), rs(2), run, ddel(1)>>, h |-> <<<<<<ddel(2), rs(1)>>>>, <<<<ddel(2)>>>>>>, early |-> 0],
  [m |-> <<rs(1), rs(2), ddel(1), ddel(2)>>, h |-> <<<<>>, <<>>>>, early |-> 0],
  [m |-> <<rs(1), run, rs(1), rs(2), ddel(1), ddel(2)>>, h |-> <<<<<<rs(2)>>>>, <<>>>>, early |-> 1]
>>
P == Progs[prog]
Runs == Len(SelectSeq(P.m, LAMBDA x : x[1] = "run"))
WK == IF P.early = 1 THEN 3 ELSE 2      \* thread number of the worker in the real program

Init ==
  /\ prog \in Which
  /\ todo = Progs[prog].m /\ hq = <<>> /\ hcnt = <<0, 0>> /\ hr = 0 /\ sub = 0 /\ at = "app"
  /\ stop = <<Len(SelectSeq(Progs[prog].m, LAMBDA x : x[1] = "run")) * 3, Progs[prog].early * 2>>
  /\ open = <<FALSE, FALSE>> /\ queue = <<>> /\ exec = 0 /\ got = <<0, 0>> /\ job = 0
  /\ dmx = 0 /\ wk = "none" /\ sig = FALSE /\ wquit = FALSE
  /\ fired = <<>> /\ trig = <<>> /\ efd = FALSE /\ edge = FALSE /\ quit = FALSE /\ n = <<0, 0, 0>>
  /\ hist = <<>> /\ bad = FALSE
  /\ res = [r \in {1, 2} |-> [loop |-> 1, cur |-> 0]] /\ reqs = <<>> /\ nlook = 0 /\ sy = {}

Mon(A)   == (A /\ UNCHANGED bad) \/ (~ENABLED A /\ bad' = TRUE /\ UNCHANGED cvars)
Silent   == UNCHANGED <<cvars, bad>>
Tok(t, k) == hist' = Append(hist, <<t, k>>)
NoTok    == hist' = hist
Push(s, x)    == IF \E i \in DOMAIN s : s[i] = x THEN s ELSE Append(s, x)
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)

\* ---- operations of the loop thread, in the program or in a handler
Ops == IF at = "hnd" THEN hq ELSE todo
Can == at \in {"app", "hnd"} /\ Ops # <<>> /\ Head(Ops)[1] # "run"
Cur == Head(Ops)
Stage(k) == sub' = k /\ UNCHANGED <<todo, hq>>
Finish   == sub' = 0 /\ IF at = "hnd" THEN hq' = Tail(hq) /\ UNCHANGED todo ELSE todo' = Tail(todo) /\ UNCHANGED hq
wvars == <<job, wk, wquit>>
lvars == <<efd, edge, quit>>
rest  == <<prog, hcnt, hr, at, stop>>
\* resolve = cancel what is in progress (stages 1, 2), then queue (3) and notify (4)
Begin ==
  /\ Can /\ sub = 0
  /\ LET r == Cur[2] IN
     /\ CASE Cur[1] = "res"  -> n' = [n EXCEPT ![1] = @ + 1] /\ Mon(D!Resolve(r, n[1] + 1, 80, 4))
          [] Cur[1] = "dcan" -> UNCHANGED n /\ Mon(D!CancelDns(r))
          [] Cur[1] = "ddel" -> UNCHANGED n /\ Mon(D!CancelDns(r))
     /\ IF open[r] THEN Stage(1)
        ELSE IF Cur[1] = "res" THEN Stage(3) ELSE Stage(5)
  /\ NoTok
  /\ UNCHANGED <<rest, wvars, lvars, open, queue, exec, got, dmx, sig, fired, trig>>
Cancel1 ==
  /\ Can /\ sub = 1 /\ dmx = 0
  /\ LET r == Cur[2] IN
     /\ exec' = IF exec = r THEN 0 ELSE exec
     /\ queue' = Without(queue, r) /\ trig' = Without(trig, r)
  /\ dmx' = 1 /\ Stage(2) /\ Tok(0, "L") /\ Silent
  /\ UNCHANGED <<rest, wvars, lvars, open, got, sig, fired, n>>
Cancel2 ==
  /\ Can /\ sub = 2
  /\ LET r == Cur[2] IN fired' = Without(fired, r) /\ open' = [open EXCEPT ![r] = FALSE]
  /\ dmx' = 0 /\ Stage(IF Cur[1] = "res" THEN 3 ELSE 5) /\ Tok(0, "L") /\ Silent
  /\ UNCHANGED <<rest, wvars, lvars, queue, exec, got, sig, trig, n>>
Queue ==
  /\ Can /\ sub = 3 /\ dmx = 0
  /\ LET r == Cur[2] IN queue' = Append(queue, r) /\ open' = [open EXCEPT ![r] = TRUE] /\ n' = [n EXCEPT ![r + 1] = n[1]]
  /\ dmx' = 1 /\ Stage(4) /\ Tok(0, "L") /\ Silent
  /\ wk' = IF wk = "none" THEN "lock" ELSE wk
  /\ UNCHANGED <<rest, job, wquit, lvars, exec, got, sig, fired, trig>>
Notify ==
  /\ Can /\ sub = 4 /\ dmx' = 0 /\ sig' = (sig \/ wk = "cond") /\ Finish /\ Tok(0, "N")
  /\ Mon(D!Resolved(Cur[2], open[Cur[2]]))
  /\ UNCHANGED <<rest, wvars, lvars, open, queue, exec, got, fired, trig, n>>
CancelEnd ==
  /\ Can /\ sub = 5 /\ Finish /\ NoTok
  /\ IF Cur[1] = "dcan" THEN Mon(D!CancelDns(Cur[2]) /\ ~open[Cur[2]]) ELSE Mon(D!DelDns(Cur[2]))
  /\ UNCHANGED <<rest, wvars, lvars, open, queue, exec, got, dmx, sig, fired, trig, n>>
\* ---- its loop
lrest == <<prog, hcnt, hr, stop, todo, hq, sub, open, queue, exec, got, job, dmx, wk, sig, wquit, n>>
RunBegin == at = "app" /\ todo # <<>> /\ Head(todo)[1] = "run" /\ at' = "check" /\ NoTok /\ Silent
            /\ UNCHANGED <<lrest, fired, trig, efd, edge, quit>>
CheckQuit == at = "check" /\ quit /\ at' = "reset" /\ Tok(0, "A") /\ Silent /\ UNCHANGED <<lrest, fired, trig, efd, edge, quit>>
Reset == /\ at = "reset" /\ at' = "app" /\ quit' = FALSE /\ todo' = Tail(todo) /\ Tok(0, "A") /\ Silent
         /\ UNCHANGED <<prog, hcnt, hr, stop, hq, sub, open, queue, exec, got, job, dmx, wk, sig, wquit, n, fired, trig, efd, edge>>
Dispatch ==
  /\ at = "check" /\ ~quit /\ trig # <<>> /\ trig' = Tail(trig) /\ Tok(0, "A") /\ Silent
  /\ at' = IF Head(trig) = 0 THEN "read" ELSE "enter"
  /\ hr' = Head(trig)
  /\ UNCHANGED <<prog, hcnt, stop, todo, hq, sub, open, queue, exec, got, job, dmx, wk, sig, wquit, n, fired, efd, edge, quit>>
ToWait == at = "check" /\ ~quit /\ trig = <<>> /\ at' = "wait" /\ Tok(0, "A") /\ Silent /\ UNCHANGED <<lrest, fired, trig, efd, edge, quit>>
WakeUp == /\ at = "wait" /\ edge /\ efd /\ edge' = FALSE /\ trig' = Append(trig, 0) /\ at' = "check" /\ Tok(0, "E") /\ Silent
          /\ UNCHANGED <<lrest, fired, efd, quit>>
Read == at = "read" /\ efd' = FALSE /\ at' = "move" /\ Tok(0, "R") /\ Silent /\ UNCHANGED <<lrest, fired, trig, edge, quit>>
Move == /\ at = "move" /\ at' = "check" /\ Tok(0, "L") /\ Silent
        /\ trig' = trig \o SelectSeq(fired, LAMBDA w : \A i \in DOMAIN trig : trig[i] # w) /\ fired' = <<>>
        /\ UNCHANGED <<lrest, efd, edge, quit>>
\* the worker calls the watcher under its mutex and uses the resolver until it unlocks: the handler waits for that
Enter ==
  /\ at = "enter" /\ dmx = 0 /\ at' = "hnd" /\ Tok(0, "L")
  /\ hcnt' = [hcnt EXCEPT ![hr] = @ + 1]
  /\ hq' = IF hcnt[hr] + 1 <= Len(P.h[hr]) THEN P.h[hr][hcnt[hr] + 1] ELSE <<>>
  /\ open' = [open EXCEPT ![hr] = FALSE]
  /\ Mon(D!Answer(hr, 1, got[hr]))
  /\ UNCHANGED <<prog, hr, stop, todo, sub, queue, exec, got, job, dmx, wk, sig, wquit, n, fired, trig, efd, edge, quit>>
HEnd == at = "hnd" /\ hq = <<>> /\ at' = "check" /\ NoTok /\ Silent /\ UNCHANGED <<lrest, fired, trig, efd, edge, quit>>
\* ---- the worker
srest == <<prog, hcnt, hr, stop, at, todo, hq, sub, open, n>>
Take ==
  /\ wk = "lock" /\ dmx = 0 /\ Silent /\ Tok(WK, "L")
  /\ IF wquit THEN wk' = "done" /\ UNCHANGED <<queue, exec, job, sig>>
     ELSE IF queue = <<>> THEN wk' = "cond" /\ sig' = FALSE /\ UNCHANGED <<queue, exec, job>>
     ELSE /\ exec' = Head(queue) /\ queue' = Tail(queue) /\ wk' = "look" /\ UNCHANGED sig
          /\ job' = n[Head(queue) + 1]
  /\ UNCHANGED <<srest, got, dmx, wquit, fired, trig, efd, edge, quit>>
Woken == /\ wk = "cond" /\ sig /\ dmx = 0 /\ wk' = "lock" /\ sig' = FALSE /\ Silent /\ NoTok
         /\ UNCHANGED <<srest, queue, exec, got, job, dmx, wquit, fired, trig, efd, edge, quit>>
Look ==
  /\ wk = "look" /\ wk' = "lock2" /\ Tok(WK, "G")
  /\ Mon(D!Look(job, 80, 4, nlook + 1, 0))
  /\ job' = nlook + 1
  /\ UNCHANGED <<srest, queue, exec, got, dmx, sig, wquit, fired, trig, efd, edge, quit>>
Publish ==
  /\ wk = "lock2" /\ dmx = 0 /\ Silent /\ Tok(WK, "L")
  /\ IF exec = 0 THEN wk' = "lock" /\ UNCHANGED <<got, dmx>>
     ELSE wk' = "call" /\ got' = [got EXCEPT ![exec] = job] /\ dmx' = 2
  /\ UNCHANGED <<srest, queue, exec, job, sig, wquit, fired, trig, efd, edge, quit>>
CallW == /\ wk = "call" /\ wk' = "wake" /\ fired' = Push(fired, exec) /\ Silent /\ Tok(WK, "L")
         /\ UNCHANGED <<srest, queue, exec, got, job, dmx, sig, wquit, trig, efd, edge, quit>>
WakeL == /\ wk = "wake" /\ wk' = "lock" /\ efd' = TRUE /\ edge' = TRUE /\ exec' = 0 /\ dmx' = 0 /\ Silent /\ Tok(WK, "W")
         /\ UNCHANGED <<srest, queue, got, job, sig, wquit, fired, trig, quit>>
\* ---- threads that cancel the loop: the first when nothing moves any more, once per run; the second at once
Still == /\ ((at = "wait" /\ ~(edge /\ efd)) \/ (at = "app" /\ todo = <<>>))
         /\ stop[2] = 0
         /\ wk \in {"none", "cond", "done"} /\ ~sig
StopQ == /\ stop[1] > 0 /\ stop[1] % 3 = 0 /\ (Still \/ at = "join") /\ stop' = [stop EXCEPT ![1] = @ - 1] /\ NoTok
         /\ IF at = "wait" THEN Mon(D!DnsQuiet(LAMBDA x : TRUE)) ELSE Silent
         /\ UNCHANGED <<prog, hcnt, hr, at, todo, hq, sub, open, n, queue, exec, got, job, dmx, wk, sig, wquit, fired, trig, efd, edge, quit>>
Stop(i) ==
  LET k == stop[i] % (IF i = 1 THEN 3 ELSE 2) a == IF i = 1 THEN k = 2 ELSE k = 0 IN
  /\ stop[i] > 0 /\ (i = 1 => k # 0) /\ stop' = [stop EXCEPT ![i] = @ - 1] /\ Silent
  /\ IF a THEN quit' = TRUE /\ Tok(i, "A") /\ UNCHANGED <<efd, edge>>
     ELSE efd' = TRUE /\ edge' = TRUE /\ Tok(i, "W") /\ UNCHANGED quit
  /\ UNCHANGED <<prog, hcnt, hr, at, todo, hq, sub, open, n, queue, exec, got, job, dmx, wk, sig, wquit, fired, trig>>
\* ---- the end of the program: the worker is stopped and joined, whatever it is doing
erest == <<prog, hcnt, hr, stop, todo, hq, sub, open, n, queue, exec, got, job, wk, fired, trig, efd, edge, quit>>
ToJoin == at = "app" /\ todo = <<>> /\ at' = "join" /\ NoTok /\ Silent /\ UNCHANGED <<erest, dmx, sig, wquit>>
Joined == at = "join" /\ stop = <<0, 0>> /\ at' = "exit1" /\ NoTok /\ Silent /\ UNCHANGED <<erest, dmx, sig, wquit>>
Exit1  == at = "exit1" /\ dmx = 0 /\ at' = "exit2" /\ dmx' = 1 /\ wquit' = TRUE /\ Tok(0, "L") /\ Silent /\ UNCHANGED <<erest, sig>>
Exit2  == at = "exit2" /\ at' = "exit3" /\ dmx' = 0 /\ sig' = (sig \/ wk = "cond") /\ Tok(0, "N") /\ Silent /\ UNCHANGED <<erest, wquit>>
Exit3  == at = "exit3" /\ wk = "done" /\ at' = "end" /\ NoTok /\ Silent /\ UNCHANGED <<erest, dmx, sig, wquit>>

Next == ~bad /\ ( Begin \/ Cancel1 \/ Cancel2 \/ Queue \/ Notify \/ CancelEnd
   \/ RunBegin \/ CheckQuit \/ Reset \/ Dispatch \/ ToWait \/ WakeUp \/ Read \/ Move \/ Enter \/ HEnd
   \/ Take \/ Woken \/ Look \/ Publish \/ CallW \/ WakeL
   \/ StopQ \/ Stop(1) \/ Stop(2) \/ ToJoin \/ Joined \/ Exit1 \/ Exit2 \/ Exit3 )
Spec == Init /\ [][Next]_<<ivars, cvars, bad, hist>>
NotBad == ~bad
NoDeadlock == at = "end" \/ bad \/ ENABLED Next
\* a live answer is stored before its handler can run; what is executed or queued belongs to somebody who waits
Owned == \A r \in {1, 2} : (exec = r \/ \E i \in DOMAIN queue : queue[i] = r) => (open[r] \/ (Can /\ Cur[2] = r))
\* the worker never touches a resolver that is gone
UsesLiving == wk \in {"call", "wake"} => exec # 0 /\ res[exec].loop # -1
Script == PrintT(ToJson(<<prog, hist'>>))
=============================================================================
