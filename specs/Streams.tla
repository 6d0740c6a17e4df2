------------------------------- MODULE Streams -------------------------------
(* Contract of the stream adapters (C09): a finite stream is the sequence of   *)
(* bytes it still has to deliver, a sink is what it has received.             *)
EXTENDS Naturals, Integers, Sequences
VARIABLES rem,      \* bytes the source still has to deliver
          snk, scap \* what the sink under test holds, and how much more it takes (-1: unlimited)
vars == <<rem, snk, scap>>
Min(a, b)  == IF a < b THEN a ELSE b
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
Flat(ps) == LET F[k \in 0..Len(ps)] == IF k = 0 THEN <<>> ELSE F[k-1] \o ps[k] IN F[Len(ps)]

Source(bytes) == rem' = bytes /\ UNCHANGED <<snk, scap>>
ReadSome(count, data) ==
  /\ Len(data) <= Min(count, Len(rem))
  /\ (count > 0 /\ rem # <<>>) => data # <<>>
  /\ data = Take(rem, Len(data)) /\ rem' = Drop(rem, Len(data))
  /\ UNCHANGED <<snk, scap>>
\* exact read: everything asked for, or an exception after the maximal prefix
ReadExact(count, ok, data) ==
  /\ ok = (count <= Len(rem))
  /\ data = Take(rem, Min(count, Len(rem))) /\ rem' = Drop(rem, Len(data))
  /\ UNCHANGED <<snk, scap>>
\* taken[i]: what the sink accepted in the i-th call
WriteTo(max, taken, n) ==
  /\ n = Len(Flat(taken)) /\ n <= Min(max, Len(rem))
  /\ Flat(taken) = Take(rem, n) /\ rem' = Drop(rem, n)
  /\ n = Min(max, Len(rem)) \/ (taken # <<>> /\ taken[Len(taken)] = <<>>)
  /\ UNCHANGED <<snk, scap>>
Size(size, empty) == size = Len(rem) /\ empty = (rem = <<>>) /\ UNCHANGED vars
Append1(data) == rem' = rem \o data /\ UNCHANGED <<snk, scap>>      \* appending keeps existing content
Cleared == rem' = <<>> /\ UNCHANGED <<snk, scap>>
\* sinks
Sink(c, init) == snk' = init /\ scap' = c /\ UNCHANGED rem
Room == IF scap < 0 THEN 1000000 ELSE scap
Accept(n, data) == snk' = snk \o Take(data, n) /\ scap' = (IF scap < 0 THEN scap ELSE scap - n)
WriteSome(data, n) ==
  /\ n <= Min(Len(data), Room) /\ ((data # <<>> /\ Room > 0) => n > 0)
  /\ Accept(n, data) /\ UNCHANGED rem
WriteExact(data, ok) ==
  /\ ok = (Len(data) <= Room)
  /\ Accept(Min(Len(data), Room), data) /\ UNCHANGED rem
Content(c) == c = snk /\ UNCHANGED vars
=============================================================================
