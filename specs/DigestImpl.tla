----------------------------- MODULE DigestImpl ------------------------------
(* How the digests collect blocks, with the bytes of the message represented   *)
(* by their positions: whatever the pieces, the compression function sees the  *)
(* blocks of the padded message in order, each once.                           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS B, LEN, MaxPiece, MaxTotal        \* block size, bytes of the length field
VARIABLES total, buf, done, fin, ok, hist
vars == <<total, buf, done, fin, ok, hist>>
view == <<total, buf, done, fin, ok>>
Min(a, b) == IF a < b THEN a ELSE b
\* symbols of the padding: 0 for the one bit, -1 for zero, -2 for the length
Padding(n) == <<0>> \o [i \in 1..((2 * B - 1 - LEN - (n % B)) % B) |-> -1] \o [i \in 1..LEN |-> -2]
Whole(n)   == [i \in 1..n |-> i] \o Padding(n)
Init == total = 0 /\ buf = <<>> /\ done = <<>> /\ fin = FALSE /\ ok = TRUE /\ hist = <<>>
\* state after feeding the symbols s: what stays in the buffer, what was compressed
RECURSIVE Feed(_, _, _)
Feed(b, d, s) ==
  LET part == B - Len(b)
  IN IF Len(s) < part THEN <<b \o s, d>>
     ELSE Feed(<<>>, d \o b \o SubSeq(s, 1, part), SubSeq(s, part + 1, Len(s)))
AddPiece(n) ==
  /\ ~fin /\ total + n <= MaxTotal
  /\ LET r == Feed(buf, done, [i \in 1..n |-> total + i]) IN buf' = r[1] /\ done' = r[2]
  /\ total' = total + n
  /\ hist' = Append(hist, n)
  /\ UNCHANGED <<fin, ok>>
Finalize ==
  /\ ~fin
  /\ LET off == total % B
         n   == IF off < B - LEN THEN B - LEN - off ELSE 2 * B - LEN - off
         r   == Feed(buf, done, <<0>> \o [i \in 1..(n - 1) |-> -1])
     IN done' = r[2] \o r[1] \o [i \in 1..LEN |-> -2] /\ buf' = <<>>
  /\ fin' = TRUE /\ ok' = (done' = Whole(total)) /\ UNCHANGED <<total, hist>>
Next == Finalize \/ \E n \in 0..MaxPiece : AddPiece(n)
Spec == Init /\ [][Next]_vars
Right  == ok
Prefix == fin \/ done \o buf = [i \in 1..total |-> i]
Script == fin' \/ PrintT(ToJson(hist'))
=============================================================================
