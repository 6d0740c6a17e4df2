------------------------------ MODULE RingImpl -------------------------------
(* The circular buffer as designed: read_pos in 0..size-1, write_pos in       *)
(* read_pos..read_pos+size, contents at positions modulo size, both reset to  *)
(* zero when empty.  Refines Ring.  Every transition becomes a test script.   *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS MaxCap, MaxLen
VARIABLES mem, rp, wp, dead, next, hist, lastdata
vars == <<mem, rp, wp, dead, next, hist, lastdata>>
N == Len(mem)
\* bytes are numbered by writing order; the view only sees the layout
view == <<N, rp, wp, dead, Len(hist) = 0>>

Contents == [i \in 1..(wp - rp) |-> mem[((rp + i - 1) % N) + 1]]
ReadCount   == IF wp < N THEN wp - rp ELSE N - rp
ReadCount2  == IF wp < N THEN 0 ELSE wp - N
WriteCount  == IF wp < N THEN N - wp ELSE rp - (wp - N)
WriteCount2 == IF wp < N THEN rp ELSE 0
Fresh(n) == [i \in 1..n |-> (next + i - 1) % 250]

Norm(r, w) == LET r1 == IF r >= N THEN r - N ELSE r
                  w1 == IF r >= N THEN w - N ELSE w
              IN IF r1 = w1 THEN <<0, 0>> ELSE <<r1, w1>>
Consume(n) == LET p == Norm(rp + n, wp) IN rp' = p[1] /\ wp' = p[2]
Store(m, at, data) == LET F[k \in 0..Len(data)] == IF k = 0 THEN m ELSE [F[k-1] EXCEPT ![((at + k - 1) % Len(m)) + 1] = data[k]] IN F[Len(data)]
Produce(data) == mem' = Store(mem, wp, data) /\ wp' = wp + Len(data)
Min(a, b) == IF a < b THEN a ELSE b
Rec(x) == hist' = Append(hist, x)

Init == \E n \in 0..MaxCap :
          /\ mem = [i \in 1..n |-> 255] /\ rp = 0 /\ wp = 0 /\ dead = FALSE
          /\ next = 0 /\ hist = <<<<"cap", n>>>> /\ lastdata = <<>>
ReadSome(c) ==
  /\ Rec(<<"read", c>>)
  /\ LET n == Min(c, ReadCount) IN lastdata' = SubSeq(mem, rp + 1, rp + n) /\ Consume(n)
  /\ UNCHANGED <<mem, dead, next>>
WriteSome(c) ==
  /\ Rec(<<"write", c>>)
  /\ LET n == Min(c, WriteCount) IN Produce(SubSeq(Fresh(c), 1, n)) /\ lastdata' = SubSeq(Fresh(c), 1, n)
  /\ next' = next + c
  /\ UNCHANGED <<rp, dead>>
DidRead(n) ==
  /\ Rec(<<"dread", n>>) /\ lastdata' = <<>>
  /\ IF n <= wp - rp THEN Consume(n) /\ dead' = FALSE ELSE dead' = TRUE /\ UNCHANGED <<rp, wp>>
  /\ UNCHANGED <<mem, next>>
DidWrite(n) ==
  /\ Rec(<<"dwrite", n>>) /\ lastdata' = Fresh(n)
  /\ IF n <= N - (wp - rp) THEN Produce(Fresh(n)) /\ dead' = FALSE ELSE dead' = TRUE /\ UNCHANGED <<mem, wp>>
  /\ next' = next + n
  /\ UNCHANGED rp
Undo(n) ==
  /\ Rec(<<"undo", n>>) /\ lastdata' = <<>>
  /\ IF n <= wp - rp THEN wp' = wp - n /\ dead' = FALSE ELSE dead' = TRUE /\ UNCHANGED wp
  /\ UNCHANGED <<mem, rp, next>>
\* sources/sinks accept p bytes per call, pieces times
ReadFrom(p, k) ==
  /\ Rec(<<"rfrom", p, k>>)
  /\ LET n == Min(p * k, N - (wp - rp)) IN Produce(Fresh(n)) /\ next' = next + n /\ lastdata' = Fresh(n)
  /\ UNCHANGED <<rp, dead>>
WriteTo(p, k, max) ==
  /\ Rec(<<"wto", p, k, max>>) /\ lastdata' = <<>>
  /\ LET n == Min(Min(p * k, max), wp - rp) IN
       \* whole pieces only while the two parts are contiguous: the loop stops after k calls
       \E m \in 0..n : Consume(m)
  /\ UNCHANGED <<mem, dead, next>>
Peek(c)   == Rec(<<"peek", c>>) /\ UNCHANGED <<mem, rp, wp, dead, next, lastdata>>
Enough(c, p, k) == Rec(<<"enough", c, p, k>>) /\ lastdata' = <<>> /\ UNCHANGED <<rp, dead>> /\
   (IF wp - rp >= c THEN UNCHANGED <<mem, wp, next>>
    ELSE LET n == Min(p * k, N - (wp - rp)) IN Produce(Fresh(n)) /\ next' = next + n)
Clear     == Rec(<<"clear">>) /\ rp' = 0 /\ wp' = 0 /\ UNCHANGED <<mem, dead, next, lastdata>>
Resize(n) == Rec(<<"resize", n>>) /\ rp' = 0 /\ wp' = 0 /\ mem' = [i \in 1..n |-> 255] /\ UNCHANGED <<dead, next, lastdata>>

Next == /\ ~dead /\ Len(hist) < MaxLen
        /\ \/ \E c \in 0..(MaxCap + 1) : ReadSome(c) \/ WriteSome(c) \/ DidRead(c) \/ DidWrite(c) \/ Undo(c) \/ Peek(c)
           \/ \E p \in 1..2, k \in 0..2 : ReadFrom(p, k) \/ (\E m \in {0, 1, 2, MaxCap + 1} : WriteTo(p, k, m))
           \/ \E c \in 0..MaxCap, p \in 1..2, k \in 0..2 : Enough(c, p, k)
           \/ Clear \/ \E n \in 0..MaxCap : Resize(n)
Spec == Init /\ [][Next]_vars

C == INSTANCE Ring WITH q <- IF N = 0 THEN <<>> ELSE Contents, cap <- N
\* inspection functions agree with the queue in every state
Inv == /\ C!TypeOK
       /\ N > 0 => rp < N /\ wp >= rp /\ wp <= rp + N
       /\ ReadCount + ReadCount2 = wp - rp /\ WriteCount + WriteCount2 = N - (wp - rp)
       /\ SubSeq(mem, rp + 1, rp + ReadCount) \o SubSeq(mem, 1, ReadCount2) = C!Take(IF N = 0 THEN <<>> ELSE Contents, wp - rp)
       /\ wp > rp => ReadCount > 0
       /\ wp - rp < N => WriteCount > 0
Refines == [][
  LET op == hist'[Len(hist')] IN
  \/ op[1] = "read"   /\ C!ReadSome(op[2], lastdata')
  \/ op[1] = "write"  /\ C!WriteSome(Fresh(op[2]), Len(lastdata'))
  \/ op[1] = "dread"  /\ C!DidRead(op[2], ~dead')
  \/ op[1] = "dwrite" /\ C!DidWrite(Fresh(op[2]), ~dead')
  \/ op[1] = "undo"   /\ C!DidWriteUndo(op[2], ~dead')
  \/ op[1] \in {"rfrom", "wto", "peek", "enough", "clear", "resize"}]_vars
Script == PrintT(ToJson(hist'))
=============================================================================
