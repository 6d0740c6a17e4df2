------------------------------- MODULE Numbers -------------------------------
(* Integers of any size as <<sign, decimal digits>>: the ranges of the C++      *)
(* types, the grammar of numbers in text, exact addition and subtraction.      *)
(* A text is a sequence of character codes.                                     *)
EXTENDS Integers, Sequences, SequencesExt
Rng(a, b) == IF b < a THEN <<>> ELSE [i \in 1..(b - a + 1) |-> a + i - 1]
Strip(d)  == LET nz == {i \in DOMAIN d : d[i] # 0}
             IN IF nz = {} THEN <<0>> ELSE SubSeq(d, CHOOSE i \in nz : \A j \in nz : i <= j, Len(d))
\* digits are most significant first, without leading zeros
Less0(a, b) == \/ Len(a) < Len(b)
               \/ Len(a) = Len(b) /\ \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
At(a, k) == IF k < Len(a) THEN a[Len(a) - k] ELSE 0          \* digit of 10^k
AddM(a, b) ==
  LET n == 1 + (IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))
      r == FoldLeft(LAMBDA s, k : LET v == At(a, k) + At(b, k) + s[2] IN <<<<v % 10>> \o s[1], v \div 10>>, <<<<>>, 0>>, Rng(0, n - 1))
  IN Strip(r[1])
SubM(a, b) ==     \* a >= b
  LET r == FoldLeft(LAMBDA s, k : LET v == At(a, k) - At(b, k) - s[2] IN <<<<(v + 10) % 10>> \o s[1], IF v < 0 THEN 1 ELSE 0>>, <<<<>>, 0>>, Rng(0, Len(a) - 1))
  IN Strip(r[1])
Num(s, d)  == IF Strip(d) = <<0>> THEN <<1, <<0>>>> ELSE <<s, Strip(d)>>
Neg(x)     == Num(-x[1], x[2])
LessN(x, y) == IF x[1] # y[1] THEN x[1] < y[1] ELSE IF x[1] = 1 THEN Less0(x[2], y[2]) ELSE Less0(y[2], x[2])
AddN(x, y) == IF x[1] = y[1] THEN Num(x[1], AddM(x[2], y[2]))
              ELSE IF Less0(x[2], y[2]) THEN Num(y[1], SubM(y[2], x[2])) ELSE Num(x[1], SubM(x[2], y[2]))
SubN(x, y) == AddN(x, Neg(y))
Twice(d, n) == FoldLeft(LAMBDA a, i : AddM(a, a), d, Rng(1, n))
Half(d) ==        \* quotient and remainder
  LET r == FoldLeft(LAMBDA s, i : LET v == s[2] * 10 + d[i] IN <<Append(s[1], v \div 2), v % 2>>, <<<<>>, 0>>, Rng(1, Len(d)))
  IN <<Strip(r[1]), r[2]>>

Types  == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"}
Bits   == [i8 |-> 8, u8 |-> 8, i16 |-> 16, u16 |-> 16, i32 |-> 32, u32 |-> 32, i64 |-> 64, u64 |-> 64]
Signed == {"i8", "i16", "i32", "i64"}
One    == <<1, <<1>>>>
Most    == [t \in Types |-> SubN(<<1, Twice(<<1>>, IF t \in Signed THEN Bits[t] - 1 ELSE Bits[t])>>, One)]
Least    == [t \in Types |-> IF t \in Signed THEN <<-1, Twice(<<1>>, Bits[t] - 1)>> ELSE <<1, <<0>>>>]
Fits(t, x) == ~LessN(Most[t], x) /\ ~LessN(x, Least[t])

\* Ws* (+ / -)? (0 / [1-9][0-9]*) Ws*, where only signed types accept a minus
Ws(ch)    == ch = 32 \/ ch \in 9..13
Digit(ch) == ch \in 48..57
Trim(s) ==
  LET in == {i \in DOMAIN s : ~Ws(s[i])}
  IN IF in = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in in : \A j \in in : i <= j, CHOOSE i \in in : \A j \in in : i >= j)
Sgn(s)  == IF s # <<>> /\ s[1] = 45 THEN -1 ELSE 1
Body(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
IsNumber(t, s) ==
  LET b == Body(Trim(s)) IN
  /\ b # <<>> /\ \A i \in DOMAIN b : Digit(b[i])
  /\ Len(b) = 1 \/ b[1] # 48
  /\ Sgn(Trim(s)) = 1 \/ t \in Signed
Value(s)   == LET b == Body(Trim(s)) IN Num(Sgn(Trim(s)), [i \in DOMAIN b |-> b[i] - 48])
Parses(t, s) == IsNumber(t, s) /\ Fits(t, Value(s))
Text(x)    == (IF x[1] = -1 THEN <<45>> ELSE <<>>) \o [i \in DOMAIN x[2] |-> x[2][i] + 48]

\* m * 2^e, where e may be negative: whole part, and whether something is left
RECURSIVE Shift(_, _, _)
Shift(d, e, left) ==
  IF e >= 0 THEN <<Twice(d, e), left>>
  ELSE IF d = <<0>> THEN <<d, left>> ELSE LET h == Half(d) IN Shift(h[1], e + 1, left \/ h[2] = 1)
\* a floating point number fits when it is not above the maximum nor below the minimum; then it is truncated
FloatFits(t, s, d, e) ==
  LET r == Shift(d, e, FALSE)
      x == Num(s, r[1])
  IN /\ Fits(t, x)
     /\ r[2] => (IF s = 1 THEN x # Most[t] ELSE x # Least[t])
FloatValue(s, d, e) == Num(s, Shift(d, e, FALSE)[1])
=============================================================================
