------------------------------ MODULE IntrTrace ------------------------------
(* Two lists and a heap over the same objects, seen from outside.               *)
EXTENDS TraceBase
VARIABLES seqs, in
vs == <<seqs, in>>
Linked(x)   == \E q \in 1..2 : \E i \in DOMAIN seqs[q] : seqs[q][i] = x
Put(q, x, k) == seqs' = (IF Linked(x) THEN seqs ELSE [seqs EXCEPT ![q] = SubSeq(@, 1, k) \o <<x>> \o SubSeq(@, k + 1, Len(@))])
Drop(x)     == seqs' = [q \in 1..2 |-> SelectSeq(seqs[q], LAMBDA y : y # x)]
Rev(s)      == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
\* heap elements are <<id, key>>
Best(x)     == \A y \in in : y[2] <= x[2]
Step(e) ==
  \/ e[1] = "back"   /\ Put(e[2], e[3], Len(seqs[e[2]])) /\ UNCHANGED in
  \/ e[1] = "front"  /\ Put(e[2], e[3], 0) /\ UNCHANGED in
  \/ e[1] = "at"     /\ Put(e[2], e[3], e[4]) /\ UNCHANGED in
  \/ e[1] \in {"unlink", "del"} /\ Drop(e[3]) /\ UNCHANGED in
  \* forward, backward, empty, front, back, which of the objects say they are linked
  \/ e[1] = "list"   /\ LET s == seqs[e[2]] IN
                        /\ e[3] = s /\ e[4] = Rev(s) /\ e[5] = (s = <<>>)
                        /\ s # <<>> => e[6] = s[1] /\ e[7] = s[Len(s)]
                        /\ \A x \in DOMAIN e[8] : e[8][x] = Linked(x)
                     /\ UNCHANGED vs
  \/ e[1] = "insert" /\ e[4] = (<<e[2], e[3]>> \notin in) /\ in' = in \cup {<<e[2], e[3]>>} /\ UNCHANGED seqs
  \/ e[1] = "erase"  /\ e[4] = (IF <<e[2], e[3]>> \in in THEN 1 ELSE 0) /\ in' = in \ {<<e[2], e[3]>>} /\ UNCHANGED seqs
  \* pop takes what front() shows, one of the largest
  \/ e[1] = "pop"    /\ <<e[2], e[3]>> \in in /\ Best(<<e[2], e[3]>>) /\ in' = in \ {<<e[2], e[3]>>} /\ UNCHANGED seqs
  \* empty, front, which of the objects say they are inside
  \/ e[1] = "heap"   /\ e[2] = (in = {}) /\ (~e[2] => <<e[3], e[4]>> \in in /\ Best(<<e[3], e[4]>>))
                     /\ {x \in DOMAIN e[5] : e[5][x]} = {x[1] : x \in in}
                     /\ UNCHANGED vs
TInit == TraceInitBase /\ seqs = <<<<>>, <<>>>> /\ in = {}
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l, seqs, in>>
=============================================================================
