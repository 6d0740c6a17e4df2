----------------------------- MODULE HttpSimple ------------------------------
(* Contract of http::ClientRequestSimple (C17): every request sent and not      *)
(* cancelled or replaced gets exactly one answer - its own response or an error;*)
(* a kept connection serves only the same host and port, and not for long.      *)
EXTENDS Naturals, Integers, Sequences, TLC
CONSTANT LINGER, KEEP
VARIABLE x
(* q: the request owed an answer <<id, ver, ka, n, host, port>>; phase of the   *)
(* connection: closed, dns, open; host, port: whom it is for; snt: q is on the  *)
(* wire; lk, ans: the name lookup; idle: since when it waits (-1: not); the     *)
(* rest as in HttpCli.                                                          *)
Zero == [q |-> <<>>, phase |-> "closed", host |-> "", port |-> 0, snt |-> FALSE, lk |-> -1, ans |-> -1, s |-> -1, sk |-> "none", roomy |-> FALSE,
         gone |-> "", in |-> <<>>, beg |-> "", fin |-> FALSE, finAt |-> 0, idle |-> -1, nosock |-> FALSE, flt |-> FALSE, maybe |-> FALSE, try |-> ""]
Init == x = Zero
Open == x.phase # "closed"
Closed == [Zero EXCEPT !.sk = IF x.sk \in {"pend", "up", "old"} THEN "old" ELSE "none", !.s = x.s]
Busy == x.q # <<>>
Put(y) == x' = y
Avail == Busy /\ x.snt /\ x.in # <<>> /\ Head(x.in)[1] = "rs"
Keep == Head(x.in)[5] = 1 /\ x.q[3] = 1     \* neither side asks to close
Dead == x.phase = "open" /\ x.sk = "closed"
\* a request: th = it cannot be taken because one to the same server is in progress
Reuse(id, n, ver, ka, host, port) ==
  /\ x.phase = "open" /\ host = x.host /\ port = x.port /\ ~Busy
  /\ Put([x EXCEPT !.q = <<id, ver, ka, n, host, port>>, !.snt = FALSE, !.idle = -1, !.try = "ok", !.maybe = (x.in # <<>> \/ x.beg # "")])
Anew(id, n, ver, ka, host, port) ==
  /\ ~Open \/ Dead \/ host # x.host \/ port # x.port
  /\ Put([Closed EXCEPT !.q = <<id, ver, ka, n, host, port>>, !.phase = "dns", !.host = host, !.port = port, !.try = "ok"])
Refuse(id, n, ver, ka, host, port) ==
  /\ Open /\ Busy /\ host = x.host /\ port = x.port
  /\ Put([x EXCEPT !.try = "th"])
SendR(th, open) == x.try # "" /\ th = (x.try = "th") /\ open = Busy /\ Put([x EXCEPT !.try = ""])
\* one which cannot be sent: the one before it goes on, or is dropped
BadSend(th, open) ==
  /\ th
  /\ \/ open = Busy /\ UNCHANGED x
     \/ ~open /\ Put(Closed)
DnsQ(id, host, port, fam) ==
  IF x.phase = "dns" /\ x.lk = -1 /\ host = x.host /\ port = x.port /\ fam = 4 THEN Put([x EXCEPT !.lk = id]) ELSE UNCHANGED x
Dns(id, n) == IF x.phase = "dns" /\ x.lk = id THEN Put([x EXCEPT !.ans = n]) ELSE UNCHANGED x
Sock(s, addr, port, res) ==
  /\ x.sk = "none" /\ port = x.port /\ x.phase = "dns" /\ x.lk >= 0 /\ x.ans > 0
  /\ addr \in {167837696 + x.lk * 256 + i : i \in 0..(x.ans - 1)}
  /\ Put([x EXCEPT !.s = s, !.sk = IF res = 1 THEN "up" ELSE IF res = 0 THEN "pend" ELSE "old", !.nosock = (res = 2), !.phase = IF res = 2 THEN "dns" ELSE "open"])
COk   == x.sk = "pend" /\ Put([x EXCEPT !.sk = "up"])
CFail == x.sk = "pend" /\ Put([x EXCEPT !.sk = "up", !.gone = "err"])
Os(open, roomy, now) ==
  IF x.sk = "old" THEN ~open /\ Put([x EXCEPT !.sk = "none"])
  ELSE /\ x.sk \in {"pend", "up"}
       /\ ~open => (\/ x.gone # "" \/ x.flt \/ x.maybe \/ (x.fin /\ now >= x.finAt + LINGER)
                    \/ ~Busy /\ (x.in # <<>> \/ x.beg # "" \/ now >= x.idle + KEEP)
                    \/ Avail /\ (Len(x.in) > 1 \/ x.beg # "" \/ ~Keep))
       /\ Put([x EXCEPT !.roomy = roomy, !.sk = IF open THEN @ ELSE "closed"])
Begin(kind) == Put([x EXCEPT !.beg = kind])
Item(it)    == Put([x EXCEPT !.in = Append(@, it), !.beg = ""])
Eof         == Put([x EXCEPT !.gone = "eof"])
Error       == Put([x EXCEPT !.gone = "err"])
Fault       == Put([x EXCEPT !.flt = TRUE])
\* answers
Response(id, st, ver, ka, n, ok, open, now) ==
  /\ ok /\ ~open /\ Avail /\ Head(x.in) = <<"rs", id, st, ver, ka, n>>
  /\ Put(IF Keep THEN [x EXCEPT !.q = <<>>, !.snt = FALSE, !.in = Tail(@), !.idle = now, !.maybe = FALSE] ELSE Closed)
Fail(open, now) ==
  /\ ~open /\ Busy
  /\ \/ x.phase = "dns" /\ (x.ans = 0 \/ (x.ans > 0 /\ (x.nosock \/ x.flt)))
     \/ Dead
     \/ x.phase = "open" /\ x.flt
  /\ ~Avail \/ x.gone = "err" \/ x.fin \/ x.flt
  /\ Put(Closed)
Cancel(open) == ~open /\ IF Busy THEN Put(Closed) ELSE UNCHANGED x
Renew == Put(Closed)
\* on the wire
WireReq(s, id, host, ver, ka, n, ok) ==
  /\ ok /\ s = x.s /\ Busy /\ ~x.snt /\ x.phase = "open" /\ x.q = <<id, ver, ka, n, host, x.port>>
  /\ Put([x EXCEPT !.snt = TRUE])
Malformed == LET k == IF x.in # <<>> THEN Head(x.in)[1] ELSE x.beg IN Busy /\ k \in {"mal", "fr", "up", "upb"}
Fin(now) ==
  /\ x.sk \in {"pend", "up"} /\ ~x.fin /\ x.snt /\ Malformed
  /\ Put([x EXCEPT !.fin = TRUE, !.finAt = now])
\* the loop goes to sleep: nothing may be left undone
Easy == x.sk = "up" /\ x.gone = "" /\ x.roomy
Settled(now, to) ==
  /\ x.sk # "old" /\ x.try = ""
  /\ x.phase = "dns" => x.ans = -1
  /\ Dead => ~Busy
  /\ (x.phase = "open" /\ ~Dead) => x.sk \in {"pend", "up"}
  /\ (Easy /\ Busy) => x.snt
  /\ Easy => ~Avail
  /\ (Easy /\ ~Busy) => (x.in = <<>> /\ x.beg = "")
  /\ (Easy /\ Busy /\ x.in # <<>>) => x.fin
  /\ x.fin => (now < x.finAt + LINGER /\ now + to <= x.finAt + LINGER + 2)
  /\ (x.phase = "open" /\ ~Dead /\ ~Busy) => (now < x.idle + KEEP /\ now + to <= x.idle + KEEP + 2)
  /\ (x.gone # "") => (x.fin \/ Dead \/ (x.gone = "eof" /\ ~x.roomy))
Sleep(now, to, open) ==
  /\ Settled(now, to) /\ open = (IF x.sk \in {"pend", "up"} THEN 1 ELSE 0)
  /\ IF Dead THEN Put(Closed) ELSE UNCHANGED x
SendEv(e) == Reuse(e[2], e[3], e[4], e[5], e[6], e[7]) \/ Anew(e[2], e[3], e[4], e[5], e[6], e[7]) \/ Refuse(e[2], e[3], e[4], e[5], e[6], e[7])
Step(e) ==
  \/ e[1] = "send"  /\ SendEv(e)
  \/ e[1] = "sendr" /\ SendR(e[2], e[3])
  \/ e[1] = "bads"  /\ BadSend(e[2], e[3])
  \/ e[1] = "dnsq"  /\ DnsQ(e[2], e[3], e[4], e[5])
  \/ e[1] = "dns"   /\ Dns(e[2], e[3])
  \/ e[1] = "sock"  /\ Sock(e[2], e[3], e[4], e[5])
  \/ e[1] = "cok"   /\ COk
  \/ e[1] = "cfail" /\ CFail
  \/ e[1] = "flt"   /\ Fault
  \/ e[1] = "os"    /\ Os(e[2], e[3], e[4])
  \/ e[1] = "bg"    /\ Begin(e[2])
  \/ e[1] = "it"    /\ Item(e[2])
  \/ e[1] = "peof"  /\ Eof
  \/ e[1] = "perr"  /\ Error
  \/ e[1] = "rh"    /\ Response(e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9])
  \/ e[1] = "eh"    /\ Fail(e[2], e[3])
  \/ e[1] = "cancel" /\ Cancel(e[2])
  \/ e[1] = "renew" /\ Renew
  \/ e[1] = "wq"    /\ WireReq(e[2], e[3], e[4], e[5], e[6], e[7], e[8])
  \/ e[1] = "fin"   /\ Fin(e[2])
  \/ e[1] = "ret"   /\ UNCHANGED x
  \/ e[1] = "sleep" /\ e[3] > 0 /\ Sleep(e[2], e[3], e[4])
=============================================================================
