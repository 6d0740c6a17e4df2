-------------------------------- MODULE Dns --------------------------------
(* DNS resolvers: requests are looked up one after another in the order they *)
(* were made, each answer goes once to the handler of the resolver that       *)
(* asked, on its loop, unless the request was cancelled, replaced or the      *)
(* resolver destroyed.                                                        *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Resolvers

VARIABLES
  res,   \* resolver -> [loop, cur]: loop -1 when there is none; cur is its request in progress, 0 if none
  reqs,  \* sequence of requests [r, loop, name, port, fam, before, back, st, at, ans]
  nlook,
  sy     \* synchronous calls in progress, at most one per thread: [t, name, port, fam, one, looks]

NoFamily == 9   \* neither IPv4 nor IPv6 wanted

DnsInit == res = [r \in Resolvers |-> [loop |-> -1, cur |-> 0]] /\ reqs = <<>> /\ nlook = 0 /\ sy = {}

\* st: "wait" (asked), "got" (looked up), "done" (answered), "dead" (cancelled)
Kill(q, k) == IF k = 0 THEN q ELSE [q EXCEPT ![k].st = "dead"]

New(r, x) == /\ res[r].loop = -1
             /\ res' = [res EXCEPT ![r] = [loop |-> x, cur |-> 0]]
             /\ UNCHANGED <<reqs, nlook, sy>>
Resolve(r, name, port, fam) ==
  /\ reqs' = Append(Kill(reqs, res[r].cur),
       [r |-> r, loop |-> res[r].loop, name |-> name, port |-> port, fam |-> fam,
        before |-> {k \in DOMAIN reqs : reqs[k].back}, back |-> FALSE, st |-> "wait", looked |-> FALSE, at |-> 0, ans |-> <<>>])
  /\ res' = [res EXCEPT ![r].cur = Len(reqs) + 1]
  /\ UNCHANGED <<nlook, sy>>
Resolved(r, isopen) ==
  /\ isopen
  /\ reqs' = [reqs EXCEPT ![res[r].cur].back = TRUE]
  /\ UNCHANGED <<res, nlook, sy>>
CancelDns(r) ==
  /\ reqs' = Kill(reqs, res[r].cur)
  /\ res' = [res EXCEPT ![r].cur = 0]
  /\ UNCHANGED <<nlook, sy>>
DelDns(r) ==
  /\ reqs' = Kill(reqs, res[r].cur)
  /\ res' = [res EXCEPT ![r] = [loop |-> -1, cur |-> 0]]
  /\ UNCHANGED <<nlook, sy>>

\* the worker asks the system; it can be too late for it to notice a cancel
LookReq(name, port, fam, ans) ==
  /\ \E k \in DOMAIN reqs :
       /\ ~reqs[k].looked
       /\ reqs[k].name = name /\ reqs[k].port = port /\ reqs[k].fam = fam
       /\ \A j \in reqs[k].before : reqs[j].looked \/ reqs[j].st = "dead" \/ reqs[j].fam = NoFamily
       /\ reqs' = [reqs EXCEPT ![k] = [@ EXCEPT !.looked = TRUE, !.ans = ans, !.at = nlook + 1,
                                               !.st = IF @ = "wait" THEN "got" ELSE @]]
  /\ nlook' = nlook + 1
  /\ UNCHANGED <<res, sy>>

\* lookups in the calling thread: one of the families asked for, or, where one address is wanted,
\* of IPv4 and then, if there was no answer, of IPv6
Sync(t, name, port, fam, one) ==
  /\ \A s \in sy : s.t # t
  /\ sy' = sy \cup {[t |-> t, name |-> name, port |-> port, fam |-> fam, one |-> one, looks |-> <<>>]}
  /\ UNCHANGED <<res, reqs, nlook>>
LookSync(s, name, port, fam, ans) ==
  /\ name = s.name /\ port = s.port
  /\ IF ~s.one THEN s.looks = <<>> /\ fam = s.fam
     ELSE \/ s.looks = <<>> /\ fam = 4
          \/ s.looks = << <<>> >> /\ fam = 6
  /\ sy' = (sy \ {s}) \cup {[s EXCEPT !.looks = Append(@, ans)]}
  /\ UNCHANGED <<res, reqs, nlook>>
Synced(t, ans) ==
  \E s \in sy :
    /\ s.t = t /\ ~s.one
    /\ IF s.fam = NoFamily THEN s.looks = <<>> /\ ans = <<>> ELSE s.looks = <<ans>>
    /\ sy' = sy \ {s} /\ UNCHANGED <<res, reqs, nlook>>
SyncedOne(t, ok, addr) ==
  \E s \in sy :
    /\ s.t = t /\ s.one
    /\ IF ok THEN s.looks # <<>> /\ s.looks[Len(s.looks)] # <<>> /\ addr = s.looks[Len(s.looks)][1]
       ELSE s.looks = << <<>>, <<>> >>
    /\ sy' = sy \ {s} /\ UNCHANGED <<res, reqs, nlook>>
Look(name, port, fam, ans, t) ==
  IF \E s \in sy : s.t = t THEN LookSync(CHOOSE s \in sy : s.t = t, name, port, fam, ans)
  ELSE LookReq(name, port, fam, ans)

Answer(r, x, ans) ==
  LET k == res[r].cur IN
  /\ k # 0
  /\ reqs[k].loop = x
  /\ IF reqs[k].fam = NoFamily THEN ans = <<>>       \* there is nothing to ask the system
     ELSE /\ reqs[k].st = "got" /\ reqs[k].ans = ans
          /\ \A j \in DOMAIN reqs : (reqs[j].st = "got" /\ reqs[j].loop = x) => reqs[j].at >= reqs[k].at
  /\ reqs' = [reqs EXCEPT ![k].st = "done"]
  /\ res' = [res EXCEPT ![r].cur = 0]
  /\ UNCHANGED <<nlook, sy>>

Asked(r, isopen) == isopen = (res[r].cur # 0) /\ UNCHANGED <<res, reqs, nlook, sy>>

DnsQuiet(Sleeping(_)) ==
  /\ \A k \in DOMAIN reqs : /\ reqs[k].st = "wait" => (reqs[k].fam = NoFamily /\ ~Sleeping(reqs[k].loop))
                            /\ (reqs[k].st = "got") => ~Sleeping(reqs[k].loop)
  /\ UNCHANGED <<res, reqs, nlook, sy>>
=============================================================================
