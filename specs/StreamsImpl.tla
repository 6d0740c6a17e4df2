----------------------------- MODULE StreamsImpl -----------------------------
(* The copy loops as designed: write_to asks the sink again and again until   *)
(* the maximum, the end of data or a refusal; exact read and write loop over  *)
(* partial calls; a combined stream drains its parts in order.  Refines       *)
(* Streams; every transition is a script (kind, length, operation, sink).     *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS Kinds, MaxLen, MaxOps
VARIABLES kind, parts, pc, max, taken, total, portions, hist, last
vars == <<kind, parts, pc, max, taken, total, portions, hist, last>>
view == <<kind, parts, pc, max, taken, total, portions, Len(hist)>>
Min(a, b) == IF a < b THEN a ELSE b
Bytes(from, n) == [i \in 1..n |-> from + i - 1]
Rem == parts[1] \o parts[2]
Rec(x) == hist' = Append(hist, x)
Portions == {<<>>, <<1>>, <<2>>, <<1, 1>>, <<2, 1>>, <<1, 9>>, <<9>>, <<9, 9>>}
Init == /\ kind \in Kinds
        /\ \E n \in 0..MaxLen : \E m \in (IF kind = "comb" THEN 0..MaxLen ELSE {0}) :
                                    /\ parts = <<Bytes(1, n), Bytes(11, m)>>
                                    /\ hist = <<<<"mk", kind, n, m>>>>
        /\ pc = "idle" /\ max = 0 /\ taken = <<>> /\ total = 0 /\ portions = <<>> /\ last = <<>>
Cur == IF parts[1] # <<>> THEN 1 ELSE 2
Deliver(n) == parts' = [parts EXCEPT ![Cur] = SubSeq(@, n + 1, Len(@))]
ReadSome(c) ==
  /\ pc = "idle" /\ Rec(<<"rs", c>>)
  /\ LET n == Min(c, Len(parts[Cur])) IN Deliver(n) /\ last' = SubSeq(parts[Cur], 1, n)
  /\ UNCHANGED <<kind, pc, max, taken, total, portions>>
ReadExact(c) ==
  /\ pc = "idle" /\ Rec(<<"rd", c>>)
  /\ LET n == Min(c, Len(Rem)) a == Min(n, Len(parts[1])) IN
       /\ parts' = <<SubSeq(parts[1], a + 1, Len(parts[1])), SubSeq(parts[2], n - a + 1, Len(parts[2]))>>
       /\ last' = SubSeq(Rem, 1, n)
  /\ UNCHANGED <<kind, pc, max, taken, total, portions>>
Start(m, ps) ==
  /\ pc = "idle" /\ pc' = "copy" /\ Rec(<<"wt", m, ps>>)
  /\ max' = m /\ portions' = ps /\ taken' = <<>> /\ total' = 0
  /\ UNCHANGED <<kind, parts, last>>
Copy ==      \* one call of the sink
  /\ pc = "copy"
  /\ LET rc == Min(Len(parts[Cur]), max) IN
     IF rc = 0 THEN pc' = "done" /\ UNCHANGED <<parts, max, taken, total, portions>>
     ELSE LET n == IF portions = <<>> THEN 0 ELSE Min(rc, portions[1]) IN
          /\ taken' = Append(taken, SubSeq(parts[Cur], 1, n)) /\ Deliver(n)
          /\ max' = max - n /\ total' = total + n
          /\ portions' = IF portions = <<>> THEN <<>> ELSE Tail(portions)
          /\ pc' = IF n = 0 THEN "done" ELSE "copy"
  /\ UNCHANGED <<kind, hist, last>>
Done == pc = "done" /\ pc' = "idle" /\ UNCHANGED <<kind, parts, max, taken, total, portions, hist, last>>
Other == /\ pc = "idle" /\ kind \in {"vstream", "sstream"}
         /\ \/ Rec(<<"app", 2>>) /\ parts' = [parts EXCEPT ![1] = @ \o <<21, 22>>]
            \/ Rec(<<"mv">>) /\ UNCHANGED parts
            \/ Rec(<<"mva">>) /\ UNCHANGED parts
         /\ UNCHANGED <<kind, pc, max, taken, total, portions, last>>
Next == \/ Len(hist) <= MaxOps /\ (\E c \in {0, 1, 2, 5} : ReadSome(c) \/ ReadExact(c) \/ (\E p \in Portions : Start(c, p)))
        \/ Len(hist) <= MaxOps /\ Other
        \/ Copy \/ Done
Spec == Init /\ [][Next]_vars
C == INSTANCE Streams WITH rem <- Rem, snk <- <<>>, scap <- 0
\* the loop's result, whenever it ends, is what the contract promises
CopyOK == pc = "done" =>
  LET f == C!Flat(taken) IN
  /\ total = Len(f)
  /\ max = 0 \/ Rem = <<>> \/ taken[Len(taken)] = <<>>
Refines == [][
  LET op == hist'[Len(hist')] IN
  hist' # hist =>
   \/ (op[1] = "rs" /\ C!ReadSome(op[2], last'))
   \/ (op[1] = "rd" /\ C!ReadExact(op[2], op[2] <= Len(Rem), last'))
   \/ op[1] = "wt"
   \/ (op[1] = "app" /\ C!Append1(<<21, 22>>))
   \/ (op[1] \in {"mv", "mva"} /\ Rem' = Rem)]_vars
Script == hist' = hist \/ PrintT(ToJson(hist'))
=============================================================================
