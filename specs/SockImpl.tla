------------------------------ MODULE SockImpl ------------------------------
(* How the library sets descriptors up: each operation is a list of calls to   *)
(* the kernel; the first one that fails makes it close what it opened and      *)
(* report the failure.  An operation that could not end as Sock says would be  *)
(* a deadlock.  Every run of MaxOps operations with at most MaxFaults failing  *)
(* calls is printed as a script for the real code.                             *)
EXTENDS Sock, Json
CONSTANTS MaxOps, MaxFaults, Ids, Emit
VARIABLES op, pc, cur, next, hist, nops, nf, dead
ivars == <<vars, op, pc, cur, next, hist, nops, nf, dead>>
A4 == <<4, 7001, <<10, 0, 0, 7>>>>
M4 == <<4, 7002, <<239, 1, 2, 3>>>>
AnyIf == <<"any", 0, <<0, 0, 0, 0>>>>
Eth == <<"name", 2, <<0, 0, 0, 0>>>>
\* name, kind of descriptor, calls after the one which makes it; text: the operation in a script
Ops == {
  [n |-> "tc", k |-> "tcp", calls |-> <<<<"opt", "sndbuf", 4096>>, <<"nonblock">>, <<"connect", A4>>, <<"opt", "nodelay", 1>>, <<"add">>>>, a |-> A4, text |-> <<"tc", "10.0.0.7,7001,4096,0,0">>],
  [n |-> "ac", k |-> "tcp", calls |-> <<<<"opt", "reuseaddr", 1>>, <<"opt", "rcvbuf", 8192>>, <<"bind", A4>>, <<"nonblock">>, <<"listen">>, <<"add">>>>, a |-> A4, text |-> <<"ac", "10.0.0.7,7001,1,0,1,0,8192">>],
  [n |-> "ut", k |-> "udp", calls |-> <<<<"nonblock">>, <<"opt", "broadcast", 1>>, <<"opt", "mif", <<<<0, 0, 0, 0>>, <<0, 0, 0, 0>>, 2>>>>, <<"connect", M4>>, <<"add">>>>, a |-> M4, text |-> <<"ut", "239.1.2.3,7002,eth0">>],
  [n |-> "ur", k |-> "udp", calls |-> <<<<"opt", "rcvbuf", 8192>>, <<"opt", "reuseaddr", 1>>, <<"opt", "reuseport", 1>>, <<"nonblock">>, <<"bind", M4>>, <<"opt", "join", <<<<239, 1, 2, 3>>, <<0, 0, 0, 0>>, 0>>>>, <<"add">>>>, a |-> M4, text |-> <<"ur", "239.1.2.3,7002,,0,8192">>],
  [n |-> "sg", k |-> "signalfd", calls |-> <<<<"nonblock">>, <<"add">>>>, a |-> None, text |-> <<"sg", "10;12">>] }
Closing == [n |-> "del", k |-> "none", calls |-> <<>>, a |-> None, text |-> <<"del", "">>]
Idle0 == [n |-> "idle"]
Making(k) == IF k \in {"tcp", "udp"} THEN "socket" ELSE k
CallOf(c) == CASE c[1] = "opt" -> "setsockopt" [] c[1] = "nonblock" -> "fcntl" [] c[1] = "add" -> "epoll_ctl" [] OTHER -> c[1]
Kept == UNCHANGED <<op, cur, next, hist, nops, nf, dead>>
Begin(o, id) ==
  /\ op = Idle0 /\ nops < MaxOps
  /\ (o.n = "sg" => ~\E i \in DOMAIN own : i # id /\ fds[own[i]].k = "signalfd")   \* two objects for one signal unblock it for each other
  /\ op' = [o |-> o, id |-> id, n |-> o.n] /\ pc' = 0 /\ cur' = 0 /\ nops' = nops + 1
  /\ hist' = Append(hist, <<o.text[1], id, o.text[2]>>) /\ UNCHANGED <<vars, next, nf, dead>>
\* the descriptors the object had are closed first
CloseOld ==
  /\ op # Idle0 /\ pc = 0 /\ Mine(op.id) \cap Open # {}
  /\ LET u == CHOOSE u \in Mine(op.id) : TRUE IN SysClose(u)
  /\ pc' = pc /\ Kept
Replaced == op # Idle0 /\ pc = 0 /\ Mine(op.id) \cap Open = {} /\ (IF op.n = "tc" THEN UNCHANGED vars ELSE Gone(op.id))
            /\ pc' = (IF op.n = "del" THEN 99 ELSE 1) /\ Kept
Make ==
  /\ op # Idle0 /\ pc = 1
  /\ SysNew(op.o.k, next, op.o.a[1]) /\ cur' = next /\ next' = next + 1 /\ pc' = 2
  /\ UNCHANGED <<op, hist, nops, nf, dead>>
Call ==
  /\ op # Idle0 /\ pc \in 2..(Len(op.o.calls) + 1)
  /\ LET c == op.o.calls[pc - 1] IN
       CASE c[1] = "opt" -> SysOpt(cur, c[2], c[3]) [] c[1] = "nonblock" -> SysNonblock(cur, TRUE) [] c[1] = "connect" -> SysConnect(cur, c[2])
         [] c[1] = "bind" -> SysBind(cur, c[2]) [] c[1] = "listen" -> SysListen(cur) [] c[1] = "add" -> SysAdd(cur)
  /\ pc' = pc + 1 /\ Kept
\* a call fails; which one of its kind in this operation is noted in the script
Nth(c) == Cardinality({i \in 1..(pc - 2) : CallOf(op.o.calls[i]) = c})
Fail ==
  /\ op # Idle0 /\ pc \in 1..(Len(op.o.calls) + 1) /\ nf < MaxFaults
  /\ nf' = nf + 1 /\ Failed /\ pc' = 98
  /\ LET c == IF pc = 1 THEN Making(op.o.k) ELSE CallOf(op.o.calls[pc - 1])
         h == hist[Len(hist)] IN
     hist' = Append(SubSeq(hist, 1, Len(hist) - 1) \o <<<<"fault", c, IF pc = 1 THEN 0 ELSE Nth(c)>>>>, h)
  /\ UNCHANGED <<op, cur, next, nops, dead>>
\* the descriptor is closed on the way out
Unwind == op # Idle0 /\ pc = 98 /\ cur # 0 /\ SysClose(cur) /\ cur' = 0 /\ UNCHANGED <<op, pc, next, hist, nops, nf, dead>>
Ok == pc = Len(op.o.calls) + 2
Finish ==
  /\ op # Idle0 /\ (Ok \/ (pc = 98 /\ cur = 0) \/ pc = 99)
  /\ CASE op.n = "del" -> UNCHANGED vars
       [] op.n = "tc"  -> TcpConnect(op.id, A4, 4096, 0, FALSE, Ok, Ok)
       [] op.n = "ac"  -> Acceptor(op.id, A4, TRUE, FALSE, TRUE, 0, 8192, Ok)
       [] op.n = "ut"  -> Transmitter(op.id, M4, Eth, Ok)
       [] op.n = "ur"  -> Receiver(op.id, M4, AnyIf, 0, 8192, Ok)
       [] op.n = "sg"  -> Signals(op.id, <<10, 12>>, Ok, <<10, 12>>)
  /\ op' = Idle0 /\ pc' = 0 /\ cur' = 0 /\ UNCHANGED <<next, hist, nops, nf, dead>>
  /\ (Emit /\ nops = MaxOps => PrintT(ToJson(hist)))
Stop == op = Idle0 /\ nops = MaxOps /\ UNCHANGED ivars
INext == (\E o \in Ops \cup {Closing}, id \in Ids : Begin(o, id)) \/ CloseOld \/ Replaced \/ Make \/ Call \/ Fail \/ Unwind \/ Finish \/ Stop
IInit == Init /\ op = Idle0 /\ pc = 0 /\ cur = 0 /\ next = 1 /\ hist = <<>> /\ nops = 0 /\ nf = 0 /\ dead = FALSE
ISpec == IInit /\ [][INext]_ivars
\* between operations nothing is open which no object owns
Tidy == op = Idle0 => /\ Open = {own[i] : i \in DOMAIN own}
                      /\ \A i, j \in DOMAIN own : own[i] = own[j] => i = j
=============================================================================
