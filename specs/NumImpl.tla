------------------------------- MODULE NumImpl -------------------------------
(* How a number in text is converted: first digits without overflow checks,    *)
(* the rest with them, all in the type itself (here 8 bits), positive and       *)
(* negative numbers separately.  The state is what was consumed so far; every   *)
(* text over Chars up to MaxLen is explored, and the answer is compared with    *)
(* the grammar of Numbers.                                                      *)
EXTENDS Numbers, TLC, Json
CONSTANTS Chars, MaxLen, T, Lo, Hi, Safe
LoByte == -128
VARIABLES s, st, v, n
vars == <<s, st, v, n>>
\* C++ division truncates towards zero
Quot(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
Rem(a, b)  == a - b * Quot(a, b)
Init == s = <<>> /\ st = "start" /\ v = 0 /\ n = 0
Put(ch) ==
  CASE st = "start" -> IF Ws(ch) THEN <<"start", 0, 0>>
                       ELSE IF ch = 45 THEN (IF Lo = 0 THEN <<"bad", 0, 0>> ELSE <<"minus", 0, 0>>)
                       ELSE IF ch = 43 THEN <<"plus", 0, 0>>
                       ELSE IF Digit(ch) THEN <<"pos", ch - 48, 1>> ELSE <<"bad", 0, 0>>
    [] st = "minus" -> IF Digit(ch) THEN <<"neg", 48 - ch, 1>> ELSE <<"bad", 0, 0>>
    [] st = "plus"  -> IF Digit(ch) THEN <<"pos", ch - 48, 1>> ELSE <<"bad", 0, 0>>
    [] st = "pos"   -> IF Digit(ch) THEN (IF v = 0 THEN <<"bad", 0, 0>>
                                          ELSE IF n >= Safe /\ (v > Quot(Hi, 10) \/ (v = Quot(Hi, 10) /\ ch - 48 > Rem(Hi, 10))) THEN <<"bad", 0, 0>>
                                          ELSE <<"pos", v * 10 + ch - 48, n + 1>>)
                       ELSE IF Ws(ch) THEN <<"end", v, n>> ELSE <<"bad", 0, 0>>
    [] st = "neg"   -> IF Digit(ch) THEN (IF v = 0 THEN <<"bad", 0, 0>>
                                          ELSE IF n >= Safe /\ (v < Quot(Lo, 10) \/ (v = Quot(Lo, 10) /\ ch - 48 > -Rem(Lo, 10))) THEN <<"bad", 0, 0>>
                                          ELSE <<"neg", v * 10 - (ch - 48), n + 1>>)
                       ELSE IF Ws(ch) THEN <<"end", v, n>> ELSE <<"bad", 0, 0>>
    [] st = "end"   -> IF Ws(ch) THEN <<"end", v, n>> ELSE <<"bad", 0, 0>>
    [] OTHER        -> <<"bad", 0, 0>>
Next == /\ Len(s) < MaxLen
        /\ \E ch \in Chars : /\ s' = Append(s, ch)
                             /\ LET r == Put(ch) IN st' = r[1] /\ v' = r[2] /\ n' = r[3]
Spec == Init /\ [][Next]_vars
Good == st \in {"pos", "neg", "end"}
InRange == v \in Lo..Hi                             \* no overflow, also half way
Digits(k) == IF k < 10 THEN <<k>> ELSE IF k < 100 THEN <<k \div 10, k % 10>> ELSE <<k \div 100, (k \div 10) % 10, k % 10>>
Right == /\ Good = Parses(T, s)
         /\ Good => Value(s) = (IF v < 0 THEN <<-1, Digits(-v)>> ELSE <<1, Digits(v)>>)
Script == PrintT(ToJson(s'))
=============================================================================
