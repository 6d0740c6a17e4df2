-------------------------------- MODULE Ring --------------------------------
(* Contract of crab::Buffer (C08): a byte queue of at most cap bytes.  Every   *)
(* action is one public operation with its arguments and result.              *)
EXTENDS Naturals, Integers, Sequences
VARIABLES q, cap, dead       \* dead: an operation was refused, the buffer is not used any more
vars == <<q, cap, dead>>

Min(a, b)  == IF a < b THEN a ELSE b
Free       == cap - Len(q)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

Create(n) == cap' = n /\ q' = <<>> /\ dead' = FALSE
\* partial read: a prefix, never empty without need
ReadSome(count, data) ==
  /\ Len(data) <= Min(count, Len(q))
  /\ (count > 0 /\ q # <<>>) => Len(data) > 0
  /\ data = Take(q, Len(data))
  /\ q' = Drop(q, Len(data)) /\ UNCHANGED <<cap, dead>>
WriteSome(data, n) ==
  /\ n <= Min(Len(data), Free)
  /\ (Len(data) > 0 /\ Free > 0) => n > 0
  /\ q' = q \o Take(data, n) /\ UNCHANGED <<cap, dead>>
\* given: pieces the source returned, in order (<<>> is "nothing now"); n: result
Flat(ps) == LET F[k \in 0..Len(ps)] == IF k = 0 THEN <<>> ELSE F[k-1] \o ps[k] IN F[Len(ps)]
ReadFrom(given, n) ==
  /\ n = Len(Flat(given)) /\ n <= Free
  /\ q' = q \o Flat(given)
  /\ n = Free \/ (given # <<>> /\ given[Len(given)] = <<>>)      \* stops when full or nothing more
  /\ \A k \in 1..(Len(given) - 1) : given[k] # <<>>
  /\ UNCHANGED <<cap, dead>>
\* taken: what the sink accepted per call
WriteTo(taken, max, n) ==
  /\ n = Len(Flat(taken)) /\ n <= Min(max, Len(q))
  /\ Flat(taken) = Take(q, n)
  /\ q' = Drop(q, n)
  /\ n = Min(max, Len(q)) \/ (taken # <<>> /\ taken[Len(taken)] = <<>>)
  /\ UNCHANGED <<cap, dead>>
Peek(count, ok, data) ==
  /\ ok = (Len(q) >= count)
  /\ ok => data = Take(q, count)
  /\ UNCHANGED vars
ReadEnough(given, count, ok) ==
  /\ IF Len(q) >= count THEN given = <<>> /\ q' = q /\ UNCHANGED <<cap, dead>>
     ELSE ReadFrom(given, Len(Flat(given)))
  /\ ok = (Len(q') >= count)
DidRead(n, ok) ==
  /\ ok = (n <= Len(q))
  /\ q' = IF ok THEN Drop(q, n) ELSE q
  /\ dead' = ~ok /\ UNCHANGED cap
DidWrite(data, ok) ==              \* the bytes were put through write_ptr / write_ptr2
  /\ ok = (Len(data) <= Free)
  /\ q' = IF ok THEN q \o data ELSE q
  /\ dead' = ~ok /\ UNCHANGED cap
DidWriteUndo(n, ok) ==
  /\ ok = (n <= Len(q))
  /\ q' = IF ok THEN Take(q, Len(q) - n) ELSE q
  /\ dead' = ~ok /\ UNCHANGED cap
Clear     == q' = <<>> /\ UNCHANGED <<cap, dead>>
Resize(n) == q' = <<>> /\ cap' = n /\ dead' = FALSE
\* what the inspection functions report
Report(size, empty, full, capacity, part1, part2, w1, w2) ==
  /\ size = Len(q) /\ empty = (q = <<>>) /\ full = (Len(q) = cap) /\ capacity = cap
  /\ part1 \o part2 = q /\ (q # <<>> => part1 # <<>>)
  /\ w1 + w2 = Free /\ (Free > 0 => w1 > 0)
  /\ UNCHANGED vars
TypeOK == Len(q) <= cap
=============================================================================
