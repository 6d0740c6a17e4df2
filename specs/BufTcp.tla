------------------------------- MODULE BufTcp --------------------------------
(* Contract of BufferedTCPSocket (C07): everything accepted reaches the peer   *)
(* in order, the buffer size is exact, the stream ends only after the data and *)
(* the connection ends at most 15 s later.  Deterministic in the events.       *)
EXTENDS Naturals, Integers, Sequences
CONSTANTS B, LINGER        \* socket objects, milliseconds allowed after the stream was ended
VARIABLES bk,   \* per object
          bc    \* per connection, in order of creation
bvars == <<bk, bc>>
(* bk[b].st: "open" until the user closed it or its handler was told; pend: a  *)
(* close event is due; lazy: buffer-only data may wait; ww: a write_some has   *)
(* answered 0 and the handler was not called since.                            *)
Dead  == [alive |-> FALSE, st |-> "closed", k |-> 0, pend |-> FALSE, lazy |-> FALSE, asked |-> FALSE, ww |-> FALSE]
Fresh == [Dead EXCEPT !.alive = TRUE]
NewConn(est, space) == [rx |-> <<>>, eof |-> FALSE, err |-> FALSE, est |-> est, tx |-> <<>>, os |-> <<>>, space |-> space,
                        asked |-> FALSE, fin |-> FALSE, finAt |-> 0, must |-> FALSE, osopen |-> TRUE]
Init == bk = [b \in B |-> Dead] /\ bc = <<>>
Drop(q, n) == SubSeq(q, n + 1, Len(q))
Take(q, n) == SubSeq(q, 1, n)
IsOpen(b)  == bk[b].st = "open" \/ bk[b].pend
Live(b)    == bk[b].st = "open"
Cn(b)      == bc[bk[b].k]
Room(c)    == c.space - Len(c.tx)          \* after everything accepted
New(b) == ~bk[b].alive /\ bk' = [bk EXCEPT ![b] = Fresh] /\ UNCHANGED bc
Del(b) == bk[b].alive /\ bk' = [bk EXCEPT ![b] = Dead] /\ UNCHANGED bc
Opened(b, k, est, space) ==
  /\ k = Len(bc) + 1 /\ bc' = Append(bc, NewConn(est, space))
  /\ bk' = [bk EXCEPT ![b] = [Fresh EXCEPT !.st = "open", !.k = k]]
\* a new connection starts with nothing left over from the previous one
Connect(b, ok, refused, k, est, space) ==
  /\ bk[b].alive /\ ok = ~refused
  /\ IF ok THEN Opened(b, k, est, space) ELSE bk' = [bk EXCEPT ![b] = Fresh] /\ UNCHANGED bc
Accept(b, k, space) == bk[b].alive /\ Opened(b, k, TRUE, space)
Close(b, ev) ==
  /\ bk[b].alive /\ UNCHANGED bc
  /\ bk' = [bk EXCEPT ![b] = [Fresh EXCEPT !.pend = ev /\ IsOpen(b)]]
\* what is_open() and get_total_buffer_size() say, given what the OS has got
State(b, open, total, sent) ==
  /\ bk[b].alive /\ open = IsOpen(b) /\ UNCHANGED bvars
  /\ IF Live(b) THEN /\ total = Len(Cn(b).tx) - sent /\ sent >= Len(Cn(b).os) /\ sent <= Cn(b).space
                ELSE ~bk[b].pend => total = 0
\* write and buffer take everything
Put(b, data, lazy) ==
  /\ bk[b].alive
  /\ IF Live(b) /\ ~bk[b].asked
     THEN /\ bc' = [bc EXCEPT ![bk[b].k].tx = @ \o data]
          /\ bk' = [bk EXCEPT ![b].lazy = IF lazy THEN @ \/ data # <<>> ELSE FALSE, ![b].ww = FALSE]
     ELSE UNCHANGED bvars
\* write_some takes n, nothing while something else is waiting
PutSome(b, data, n, total) ==
  /\ bk[b].alive /\ n <= Len(data)
  /\ IF Live(b) /\ ~bk[b].asked
     THEN /\ total > 0 => n = 0
          /\ n > 0 => Cn(b).est /\ Len(Cn(b).tx) + n <= Cn(b).space
          /\ bc' = [bc EXCEPT ![bk[b].k].tx = @ \o Take(data, n)]
          /\ bk' = [bk EXCEPT ![b].ww = (n = 0)]
     ELSE n = 0 /\ UNCHANGED bvars
Read(b, count, data) ==
  /\ bk[b].alive /\ Len(data) <= count
  /\ IF data = <<>> THEN UNCHANGED bvars
     ELSE /\ Live(b) /\ ~bk[b].asked /\ data = Take(Cn(b).rx, Len(data))
          /\ bc' = [bc EXCEPT ![bk[b].k].rx = Drop(@, Len(data))] /\ UNCHANGED bk
Shutdown(b) ==
  /\ bk[b].alive
  /\ IF Live(b) /\ ~bk[b].asked
     THEN /\ bk' = [bk EXCEPT ![b].asked = TRUE, ![b].lazy = FALSE]
          /\ bc' = [bc EXCEPT ![bk[b].k].asked = TRUE]
     ELSE UNCHANGED bvars
\* the OS is told to end the stream: only when asked, once, after every accepted byte
OsFin(k, sent, now) ==
  /\ bc[k].asked /\ ~bc[k].fin /\ sent = Len(bc[k].tx)
  /\ bc' = [bc EXCEPT ![k].fin = TRUE, ![k].finAt = now] /\ UNCHANGED bk
\* told of the end exactly once, and only for a reason
Handler(b, open, now) ==
  /\ bk[b].alive /\ UNCHANGED bc
  /\ IF open THEN IsOpen(b) /\ bk' = [bk EXCEPT ![b].lazy = FALSE, ![b].ww = FALSE]
     ELSE /\ \/ bk[b].pend
             \/ Live(b) /\ (Cn(b).err \/ Cn(b).eof \/ (Cn(b).fin /\ now >= Cn(b).finAt + LINGER))
          /\ bk' = [bk EXCEPT ![b] = Fresh]
\* the world outside; left: bytes the OS holds and nobody has read
PeerSend(k, data) == bc' = [bc EXCEPT ![k].rx = @ \o data] /\ UNCHANGED bk
PeerEof(k, left)  == bc' = [bc EXCEPT ![k].eof = TRUE, ![k].must = bc[k].fin /\ left = 0] /\ UNCHANGED bk
PeerErr(k, left)  == bc' = [bc EXCEPT ![k].err = TRUE, ![k].must = bc[k].fin /\ left = 0] /\ UNCHANGED bk
Established(k)    == bc' = [bc EXCEPT ![k].est = TRUE] /\ UNCHANGED bk
Refused(k)        == bc' = [bc EXCEPT ![k].err = TRUE] /\ UNCHANGED bk
Space(k, n)       == bc' = [bc EXCEPT ![k].space = @ + n] /\ UNCHANGED bk
Seen(k, more, open) ==
  LET os == bc[k].os \o more IN
  /\ os = Take(bc[k].tx, Len(os))
  /\ bc' = [bc EXCEPT ![k].os = os, ![k].osopen = open] /\ UNCHANGED bk
Owned(k) == \E b \in B : bk[b].alive /\ bk[b].k = k /\ Live(b)
SleepOK(now, to) ==
  /\ \A b \in B : bk[b].alive => ~bk[b].pend
  /\ \A b \in B : (bk[b].alive /\ Live(b)) => LET c == Cn(b) IN
            /\ ~c.must
            /\ (c.est /\ ~c.err /\ Len(c.os) < c.space) =>
                 /\ Len(c.os) = Len(c.tx) \/ bk[b].lazy           \* nothing waits that could go
                 /\ ~(bk[b].ww /\ ~bk[b].asked) \/ bk[b].lazy
            /\ (c.est /\ ~c.err /\ bk[b].asked /\ Len(c.os) = Len(c.tx) /\ Len(c.os) < c.space) => c.fin
            /\ c.fin => (now < c.finAt + LINGER /\ now + to <= c.finAt + LINGER + 2)
  /\ \A k \in DOMAIN bc : bc[k].osopen = Owned(k)
Step(e) ==
  \/ e[1] = "new"   /\ New(e[2])
  \/ e[1] = "del"   /\ Del(e[2])
  \/ e[1] = "conn"  /\ Connect(e[2], e[3], e[4], e[5], e[6], e[7])
  \/ e[1] = "acc"   /\ Accept(e[2], e[3], e[4])
  \/ e[1] = "close" /\ Close(e[2], e[3])
  \/ e[1] = "st"    /\ State(e[2], e[3], e[4], e[5])
  \/ e[1] = "put"   /\ Put(e[2], e[3], e[4])
  \/ e[1] = "some"  /\ PutSome(e[2], e[3], e[4], e[5])
  \/ e[1] = "rd"    /\ Read(e[2], e[3], e[4])
  \/ e[1] = "sd"    /\ Shutdown(e[2])
  \/ e[1] = "osfin" /\ OsFin(e[2], e[3], e[4])
  \/ e[1] = "h"     /\ Handler(e[2], e[3], e[4])
  \/ e[1] = "psend" /\ PeerSend(e[2], e[3])
  \/ e[1] = "peof"  /\ PeerEof(e[2], e[3])
  \/ e[1] = "perr"  /\ PeerErr(e[2], e[3])
  \/ e[1] = "cok"   /\ Established(e[2])
  \/ e[1] = "cfail" /\ Refused(e[2])
  \/ e[1] = "space" /\ Space(e[2], e[3])
  \/ e[1] = "seen"  /\ Seen(e[2], e[3], e[4])
  \/ e[1] = "sleep" /\ SleepOK(e[2], e[3]) /\ UNCHANGED bvars
=============================================================================
