------------------------------- MODULE HeapImpl ------------------------------
(* The binary heap of the library: elements move up and down an array; any can  *)
(* be erased.  Monitor: the set of elements put in and not yet taken out.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Keys          \* elements 1..N, key of each
VARIABLES arr, in, hist
vars == <<arr, in, hist>>
view == <<arr, in>>
Less(a, b) == Keys[a] < Keys[b]
Up(s, i) ==     \* element at i moves up
  LET RECURSIVE go(_, _)
      go(a, k) == LET p == k \div 2 IN
                  IF p = 0 \/ Less(s[i], a[p]) THEN [a EXCEPT ![k] = s[i]] ELSE go([a EXCEPT ![k] = a[p]], p)
  IN go(s, i)
Down(s, i) ==
  LET RECURSIVE go(_, _)
      go(a, k) == LET c == 2 * k
                      d == IF c + 1 <= Len(a) /\ Less(a[c], a[c + 1]) THEN c + 1 ELSE c
                  IN IF c > Len(a) \/ Less(a[d], s[i]) THEN [a EXCEPT ![k] = s[i]] ELSE go([a EXCEPT ![k] = a[d]], d)
  IN go(s, i)
Adjust(s, i) == IF i > 1 /\ ~Less(s[i], s[i \div 2]) THEN Up(s, i) ELSE Down(s, i)
Cut(s, i) ==    \* the last element takes the place of the one at i
  LET t == SubSeq([s EXCEPT ![i] = s[Len(s)]], 1, Len(s) - 1) IN t
Init == arr = <<>> /\ in = {} /\ hist = <<>>
Insert(e) == /\ e \notin in /\ arr' = Up(Append(arr, e), Len(arr) + 1) /\ in' = in \cup {e} /\ hist' = Append(hist, <<"insert", e>>)
Erase(e)  == /\ e \in in
             /\ LET i == CHOOSE i \in DOMAIN arr : arr[i] = e
                    t == Cut(arr, i)
                IN arr' = IF i <= Len(t) THEN Adjust(t, i) ELSE t
             /\ in' = in \ {e} /\ hist' = Append(hist, <<"erase", e>>)
Pop       == /\ in # {} /\ in' = in \ {arr[1]}
             /\ LET t == Cut(arr, 1) IN arr' = IF t = <<>> THEN t ELSE Down(t, 1)
             /\ hist' = Append(hist, <<"pop", 0>>)
Next == Pop \/ \E e \in 1..N : Insert(e) \/ Erase(e)
Spec == Init /\ [][Next]_vars
Exact   == Len(arr) = Cardinality(in) /\ {arr[i] : i \in DOMAIN arr} = in
Ordered == \A i \in 2..Len(arr) : ~Less(arr[i \div 2], arr[i])
Front   == in # {} => \A e \in in : ~Less(arr[1], e)
Script  == PrintT(ToJson(hist'))
KeysS == <<2, 1, 2, 3, 1>>
KeysL == <<2, 1, 2, 3, 1, 4, 3>>
=============================================================================
