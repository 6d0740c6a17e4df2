------------------------------ MODULE Utf8Impl -------------------------------
(* UTF-8 validation one byte at a time: how many continuation bytes are due and *)
(* in which range the next one lies.  Agrees with the definition at every byte. *)
EXTENDS Utf8, TLC, Json
CONSTANTS Bytes, MaxLen
VARIABLES s, need, lo, hi, fail
vars == <<s, need, lo, hi, fail>>
Init == s = <<>> /\ need = 0 /\ lo = 128 /\ hi = 191 /\ fail = FALSE
Next == \E b \in Bytes :
  /\ Len(s) < MaxLen /\ s' = Append(s, b)
  /\ IF fail THEN UNCHANGED <<need, lo, hi, fail>>
     ELSE IF need > 0
     THEN /\ fail' = ~In(b, lo, hi) /\ need' = need - 1 /\ lo' = 128 /\ hi' = 191
     ELSE /\ fail' = ~(b < 128 \/ In(b, 194, 244))
          /\ need' = IF b < 194 THEN 0 ELSE IF b < 224 THEN 1 ELSE IF b < 240 THEN 2 ELSE 3
          /\ lo' = (IF b = 224 THEN 160 ELSE IF b = 240 THEN 144 ELSE 128)
          /\ hi' = (IF b = 237 THEN 159 ELSE IF b = 244 THEN 143 ELSE 191)
Spec == Init /\ [][Next]_vars
Agree == Utf8(s) = (~fail /\ need = 0)
\* every string whose validity its last byte decides, and the first wrong byte after each prefix
Script == PrintT(ToJson(s'))
Interesting == ~fail \/ (Len(s) <= 1)
=============================================================================
