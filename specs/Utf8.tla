-------------------------------- MODULE Utf8 ---------------------------------
(* Well-formed UTF-8 (Unicode 3.9, table 3-7) over sequences of bytes.         *)
EXTENDS Naturals, Sequences
In(x, a, b) == a <= x /\ x <= b
RECURSIVE U8(_, _)
U8(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET b == s[i]
           c(j, lo, hi) == i + j <= Len(s) /\ In(s[i + j], lo, hi)
       IN IF b < 128 THEN U8(s, i + 1)
          ELSE IF In(b, 194, 223) THEN c(1, 128, 191) /\ U8(s, i + 2)
          ELSE IF In(b, 224, 239) THEN c(1, IF b = 224 THEN 160 ELSE 128, IF b = 237 THEN 159 ELSE 191) /\ c(2, 128, 191) /\ U8(s, i + 3)
          ELSE IF In(b, 240, 244) THEN c(1, IF b = 240 THEN 144 ELSE 128, IF b = 244 THEN 143 ELSE 191) /\ c(2, 128, 191) /\ c(3, 128, 191) /\ U8(s, i + 4)
          ELSE FALSE
Ascii(s) == \A i \in 1..Len(s) : s[i] < 128
Utf8(s) == Ascii(s) \/ U8(s, 1)
=============================================================================
