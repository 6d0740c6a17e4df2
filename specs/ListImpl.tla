------------------------------- MODULE ListImpl ------------------------------
(* The circular doubly linked lists of the library.  Nodes 1..N; the roots of   *)
(* the two lists are N+1 and N+2.  Monitor: the two sequences.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT N
VARIABLES next, prev, seqs, hist
vars == <<next, prev, seqs, hist>>
view == <<next, prev, seqs>>
Root(q) == N + q
All     == 1..(N + 2)
Init == /\ next = [x \in All |-> IF x > N THEN x ELSE 0]
        /\ prev = next /\ seqs = [q \in 1..2 |-> <<>>] /\ hist = <<>>
In(x) == prev[x] # 0
\* put x after pos
Put(q, x, pos, k) ==
  /\ IF In(x) THEN UNCHANGED <<next, prev, seqs>>
     ELSE /\ next' = [next EXCEPT ![x] = next[pos], ![pos] = x]
          /\ prev' = [prev EXCEPT ![x] = pos, ![next[pos]] = x]
          /\ seqs' = [seqs EXCEPT ![q] = SubSeq(@, 1, k) \o <<x>> \o SubSeq(@, k + 1, Len(@))]
Push(q, x)  == Put(q, x, prev[Root(q)], Len(seqs[q])) /\ hist' = Append(hist, <<"back", q, x>>)
Front(q, x) == Put(q, x, Root(q), 0) /\ hist' = Append(hist, <<"front", q, x>>)
Before(q, x, k) == /\ k <= Len(seqs[q])
                   /\ Put(q, x, IF k = 0 THEN Root(q) ELSE seqs[q][k], k) /\ hist' = Append(hist, <<"at", q, x, k>>)
Unlink(x, how) ==
  /\ hist' = Append(hist, <<how, 1, x>>)
  /\ IF ~In(x) THEN UNCHANGED <<next, prev, seqs>>
     ELSE LET n == [next EXCEPT ![prev[x]] = next[x]]
              p == [prev EXCEPT ![next[x]] = prev[x]]
          IN /\ next' = [n EXCEPT ![x] = 0] /\ prev' = [p EXCEPT ![x] = 0]
             /\ seqs' = [q \in 1..2 |-> SelectSeq(seqs[q], LAMBDA y : y # x)]
Next == \E x \in 1..N : \/ \E q \in 1..2 : Push(q, x) \/ Front(q, x) \/ (\E k \in 0..N : Before(q, x, k))
                        \/ Unlink(x, "unlink") \/ Unlink(x, "del")
Spec == Init /\ [][Next]_vars
RECURSIVE Walk(_, _, _)
Walk(f, x, q) == IF x = Root(q) THEN <<>> ELSE <<x>> \o Walk(f, f[x], q)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Right == \A q \in 1..2 : Walk(next, next[Root(q)], q) = seqs[q] /\ Walk(prev, prev[Root(q)], q) = Rev(seqs[q])
Once  == \A x \in 1..N : Cardinality({q \in 1..2 : \E i \in DOMAIN seqs[q] : seqs[q][i] = x}) = (IF In(x) THEN 1 ELSE 0)
Script == PrintT(ToJson(hist'))
=============================================================================
