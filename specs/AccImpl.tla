------------------------------- MODULE AccImpl -------------------------------
(* TCPAcceptor as it is designed: one accepted descriptor kept inside, the     *)
(* readiness flag, a one second timer after the OS ran into a limit; sockets   *)
(* that take connections over.  The contracts Acceptor and Tcp run in lockstep *)
(* as monitors; every transition is printed as a script (hist is hidden).      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Accs, Socks, MaxOps, MaxBlock, MaxWaits, MaxEnv, MaxHandlers, Errs, Kinds
Space0 == 2
SK(s) == <<"s", s>>
AC(a) == <<"a", a>>

VARIABLES pc, now, acc, so, con, trig, ready,
          doing,   \* an accept loop in progress: <<a, s>>; s = -1: can_accept() only, -2: nothing
          cnt, hist, sk, cn, ac, bad
core == <<pc, now, acc, so, con, trig, ready, doing, cnt>>
cv   == <<sk, cn, ac>>
T == INSTANCE Tcp WITH S <- Socks
K == INSTANCE Acceptor WITH A <- Accs
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
In(s, x)      == \E i \in DOMAIN s : s[i] = x
Push(s, x)    == IF In(s, x) THEN s ELSE Append(s, x)
Mute   == UNCHANGED <<sk, cn, ac, bad>>
MonK(A) == (A /\ UNCHANGED <<sk, cn, bad>>) \/ (~ENABLED A /\ bad' = TRUE /\ UNCHANGED cv)
MonT(A) == (A /\ UNCHANGED <<ac, bad>>) \/ (~ENABLED A /\ bad' = TRUE /\ UNCHANGED cv)
Both(A) == (A /\ UNCHANGED bad) \/ (~ENABLED A /\ bad' = TRUE /\ UNCHANGED cv)
Rec(x) == hist' = Append(hist, x)
Gone == [alive |-> FALSE, held |-> 0, cr |-> FALSE, tm |-> -1, q |-> <<>>, errs |-> <<>>]
Idle == <<0, -2>>
RelK == [a \in Accs |-> [ac[a] EXCEPT !.retry = IF @ < 0 THEN @ ELSE @ - now]]
view == <<pc, [a \in Accs |-> [acc[a] EXCEPT !.tm = IF @ < 0 THEN @ ELSE @ - now]], so, con, trig, ready, doing, cnt, sk, cn, RelK, bad>>

Init ==
  /\ pc = "app" /\ now = 0 /\ acc = [a \in Accs |-> Gone] /\ so = [s \in Socks |-> 0] /\ con = <<>>
  /\ trig = <<>> /\ ready = <<>> /\ doing = Idle
  /\ cnt = [ops |-> 0, blk |-> 0, waits |-> 0, env |-> 0, h |-> 0, port |-> 0]
  /\ hist = <<<<"sp", Space0>>>> /\ bad = FALSE
  /\ sk = [s \in Socks |-> T!Fresh] /\ cn = <<>> /\ K!Init

Op(kind, x) == /\ pc = "app" /\ doing = Idle /\ kind \in Kinds /\ cnt.ops < MaxOps /\ cnt.blk < MaxBlock
               /\ cnt' = [cnt EXCEPT !.ops = @ + 1, !.blk = @ + 1] /\ Rec(x) /\ UNCHANGED <<pc, now>>
New(a) ==
  /\ Op("new", <<"anew", a>>) /\ ~acc[a].alive
  /\ acc' = [acc EXCEPT ![a] = [Gone EXCEPT !.alive = TRUE]]
  /\ MonK(K!New(a)) /\ UNCHANGED <<so, con, trig, ready, doing>>
Del(a) ==
  /\ Op("del", <<"adel", a>>) /\ acc[a].alive
  /\ acc' = [acc EXCEPT ![a] = Gone]
  /\ con' = IF acc[a].held = 0 THEN con ELSE [con EXCEPT ![acc[a].held].open = FALSE]
  /\ trig' = Without(trig, AC(a)) /\ ready' = Without(ready, AC(a))
  /\ MonK(K!Del(a)) /\ UNCHANGED <<so, doing>>
Can(a) ==
  /\ Op("can", <<"can", a>>) /\ acc[a].alive /\ doing' = <<a, -1>>
  /\ UNCHANGED <<acc, so, con, trig, ready>> /\ Mute
Acc(s, a, fail) ==
  /\ Op(IF fail THEN "bad" ELSE "acc", IF fail THEN <<"acc", s, a, 1>> ELSE <<"acc", s, a>>) /\ acc[a].alive
  /\ doing' = <<a, IF fail THEN s + 100 ELSE s>>
  /\ UNCHANGED <<acc, so, con, trig, ready>> /\ Mute
\* one turn of can_accept(): what the OS answers
Os(a, r) == MonK(K!OsAccept(a, r, now))
TurnOk(a) ==        \* a connection is taken and kept
  /\ acc' = [acc EXCEPT ![a].held = Len(con) + 1, ![a].q = Tail(@)]
  /\ con' = Append(con, [port |-> Head(acc[a].q), open |-> TRUE])
  /\ Os(a, "ok") /\ UNCHANGED <<so, trig, ready, doing>>
Turn ==
  LET a == doing[1] q == acc[a].q e == acc[a].errs IN
  /\ doing # Idle /\ acc[a].held = 0 /\ acc[a].cr
  /\ UNCHANGED <<pc, now, cnt, hist>>
  /\ IF q = <<>> THEN /\ acc' = [acc EXCEPT ![a].cr = FALSE] /\ Os(a, "again") /\ UNCHANGED <<so, con, trig, ready, doing>>
     ELSE IF e = <<>> THEN TurnOk(a)
     ELSE CASE Head(e) = 5 -> acc' = [acc EXCEPT ![a].errs = Tail(@), ![a].q = Tail(@)] /\ Os(a, "abort") /\ UNCHANGED <<so, con, trig, ready, doing>>
            [] Head(e) = 7 -> acc' = [acc EXCEPT ![a].errs = Tail(@)] /\ Os(a, "intr") /\ UNCHANGED <<so, con, trig, ready, doing>>
            [] OTHER       -> /\ acc' = [acc EXCEPT ![a].errs = Tail(@), ![a].tm = now + 1000] /\ Os(a, "limit")
                              /\ doing' = <<a, IF doing[2] >= 0 THEN -3 ELSE -4>> /\ UNCHANGED <<so, con, trig, ready>>
\* can_accept() answers
Answer ==
  LET a == doing[1] no == acc[a].held = 0 IN
  /\ doing # Idle /\ (~no \/ ~acc[a].cr \/ doing[2] < -2)
  /\ UNCHANGED <<pc, now, cnt, hist>>
  /\ IF doing[2] = -1 \/ doing[2] = -4        \* the application only asked
     THEN /\ doing' = Idle /\ UNCHANGED <<acc, so, con, trig, ready>> /\ MonK(K!CanAccept(a, ~no))
     ELSE IF no \/ doing[2] = -3              \* accepting was given up
     THEN doing' = Idle /\ UNCHANGED <<acc, so, con, trig, ready>> /\ Mute
     ELSE LET s == doing[2] % 100 k == acc[a].held fail == doing[2] >= 100
              c1 == IF so[s] = 0 THEN con ELSE [con EXCEPT ![so[s]].open = FALSE]
              t1 == Without(trig, SK(s)) r1 == Without(ready, SK(s)) IN
          /\ doing' = Idle
          /\ acc' = [acc EXCEPT ![a].held = 0]
          /\ so' = [so EXCEPT ![s] = IF fail THEN 0 ELSE k]
          /\ con' = IF fail THEN [c1 EXCEPT ![k].open = FALSE] ELSE c1
          /\ trig' = IF fail THEN Append(t1, SK(s)) ELSE t1
          /\ ready' = IF fail THEN r1 ELSE Append(r1, SK(s))
          /\ Both(T!Accept(s, fail, Len(cn) + 1, Space0) /\ K!Taken(a, con[k].port))
Return == /\ pc = "app" /\ doing = Idle /\ pc' = "loop" /\ UNCHANGED <<now, acc, so, con, trig, ready, doing, cnt, hist>> /\ Mute
Enter == /\ cnt.h < MaxHandlers /\ pc' = "app" /\ Rec(<<"H">>) /\ cnt' = [cnt EXCEPT !.h = @ + 1, !.blk = 0]
         /\ UNCHANGED <<now, so, con, ready, doing>>
Handler ==
  LET x == Head(trig) IN
  /\ pc = "loop" /\ trig # <<>> /\ trig' = Tail(trig) /\ Enter /\ UNCHANGED acc
  /\ IF x[1] = "s" THEN MonT(T!Handler(x[2], so[x[2]] # 0)) ELSE MonK(K!Handler(x[2], now))
DueT == {a \in Accs : acc[a].tm >= 0 /\ acc[a].tm <= now}
TimerRun ==
  /\ pc = "loop" /\ trig = <<>>
  /\ \E a \in DueT : /\ \A b \in DueT : acc[a].tm <= acc[b].tm
                     /\ acc' = [acc EXCEPT ![a].tm = -1] /\ MonK(K!Handler(a, now))
  /\ Enter /\ UNCHANGED trig
Lev(x) == IF x[1] = "s" THEN TRUE ELSE acc[x[2]].q # <<>>
Hot == SelectSeq(ready, Lev)
Collected ==
  /\ acc' = [a \in Accs |-> IF In(Hot, AC(a)) THEN [acc[a] EXCEPT !.cr = TRUE] ELSE acc[a]]
  /\ trig' = LET F[i \in 0..Len(Hot)] == IF i = 0 THEN trig ELSE Push(F[i-1], Hot[i]) IN F[Len(Hot)]
  /\ ready' = <<>> /\ UNCHANGED <<so, con, doing, cnt, hist>> /\ Mute
Step == pc = "loop" /\ trig = <<>> /\ DueT = {} /\ ready # <<>> /\ Collected /\ UNCHANGED <<pc, now>>
Timers == {acc[a].tm : a \in {b \in Accs : acc[b].tm >= 0}}
Timeout == IF Timers = {} THEN 1800000 ELSE 1 + (CHOOSE t \in Timers : \A u \in Timers : t <= u) - now
GoSleep ==
  /\ pc = "loop" /\ trig = <<>> /\ DueT = {} /\ ready = <<>> /\ cnt.waits < MaxWaits
  /\ pc' = "sleep" /\ cnt' = [cnt EXCEPT !.waits = @ + 1] /\ Rec(<<"E">>)
  /\ cn' = [k \in DOMAIN cn |-> [cn[k] EXCEPT !.osopen = (\E s \in Socks : so[s] # 0 /\ con[so[s]].open /\ sk[s].k = k)]]
  /\ UNCHANGED <<now, acc, so, con, trig, ready, doing, sk, ac, bad>>
Asleep == pc = "sleep" /\ pc' = "wait" /\ UNCHANGED <<now, acc, so, con, trig, ready, doing, cnt, hist>> /\ Mute
WakeUp == pc = "wait" /\ pc' = "loop" /\ now' = now + (IF ready = <<>> THEN Timeout ELSE 1) /\ Collected
EnvOp(x) == pc = "wait" /\ cnt.env < MaxEnv /\ Rec(x) /\ UNCHANGED <<pc, now, so, con, trig, doing>>
Inc(a) ==
  /\ EnvOp(<<"inc", a>>) /\ acc[a].alive /\ cnt' = [cnt EXCEPT !.env = @ + 1, !.port = @ + 1]
  /\ acc' = [acc EXCEPT ![a].q = Append(@, cnt.port)] /\ ready' = Push(ready, AC(a))
  /\ MonK(K!Incoming(a, cnt.port))
AErr(a, e) ==
  /\ EnvOp(<<"aerr", a, e>>) /\ acc[a].alive /\ cnt' = [cnt EXCEPT !.env = @ + 1]
  /\ acc' = [acc EXCEPT ![a].errs = Append(@, e)] /\ UNCHANGED ready /\ Mute
Next ==
  \/ \E a \in Accs : \/ New(a) \/ Del(a) \/ Can(a) \/ Inc(a)
                     \/ \E e \in Errs : AErr(a, e)
                     \/ \E s \in Socks, f \in BOOLEAN : Acc(s, a, f)
  \/ Turn \/ Answer \/ Return \/ Handler \/ TimerRun \/ Step \/ GoSleep \/ Asleep \/ WakeUp
Spec == Init /\ [][Next]_<<core, hist, sk, cn, ac, bad>>
Accepted == ~bad
OpenAgrees == pc \in {"app", "wait"} /\ doing = Idle => \A s \in Socks : (so[s] # 0 \/ In(trig, SK(s))) = T!IsOpen(s)
Rested == pc = "sleep" => T!SleepOK /\ K!SleepOK(Timeout, now)
\* no descriptor is lost: a connection taken from the OS is held, owned or closed
Kept == \A k \in DOMAIN con : con[k].open => (\E a \in Accs : acc[a].held = k) \/ (\E s \in Socks : so[s] = k)
Script == PrintT(ToJson(hist'))
=============================================================================
