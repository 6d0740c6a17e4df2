--------------------------------- MODULE Pcg ---------------------------------
(* The PCG32 generator (pcg-random.org, XSH RR, 64 bits of state), on 64-bit    *)
(* words as 8 bytes and 32-bit results as 4 bytes, least significant first.    *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
Rng(a, b) == IF b < a THEN <<>> ELSE [i \in 1..(b - a + 1) |-> a + i - 1]
Carry(sums) ==      \* sums of byte columns to bytes
  FoldLeft(LAMBDA s, x : LET v == x + s[2] IN <<Append(s[1], v % 256), v \div 256>>, <<<<>>, 0>>, sums)[1]
Add(x, y) == Carry([k \in 1..8 |-> x[k] + y[k]])
Mul(x, y) == Carry([k \in 1..8 |-> FoldLeft(LAMBDA a, i : a + x[i] * y[k + 1 - i], 0, Rng(1, k))])
M == <<45, 127, 149, 76, 45, 244, 81, 88>>           \* 6364136223846793005
Step(st, inc) == Add(Mul(st, M), inc)
Bit(x, i) == IF i > 63 THEN 0 ELSE (x[i \div 8 + 1] \div 2^(i % 8)) % 2
FromBits(b, n) == [k \in 1..n |-> FoldLeft(LAMBDA a, i : a + b[8 * (k - 1) + i + 1] * 2^i, 0, Rng(0, 7))]
Out(st) ==
  LET rot == st[8] \div 8
      xs(i) == (Bit(st, i + 27) + Bit(st, i + 45)) % 2        \* ((st >> 18) ^ st) >> 27
  IN FromBits([j \in 1..32 |-> xs((j - 1 + rot) % 32)], 4)
Zero64 == [k \in 1..8 |-> 0]
IncOf(seed) == Carry([k \in 1..8 |-> 2 * seed[k] + (IF k = 1 THEN 1 ELSE 0)])
Start(seed) == Step(Step(Zero64, IncOf(seed)), IncOf(seed))
\* n results and the state after them
RECURSIVE Draw(_, _, _)
Draw(st, inc, n) == IF n = 0 THEN <<<<>>, st>> ELSE LET r == Draw(Step(st, inc), inc, n - 1) IN <<Out(st) \o r[1], r[2]>>
Mod(w, m) == FoldLeft(LAMBDA a, i : (a * 256 + w[5 - i]) % m, 0, Rng(1, 4))
Alpha == <<>> \o Rng(65, 90) \o Rng(97, 122) \o Rng(48, 57)
Low(w)  == w[1] < 4 /\ w[2] = 0 /\ w[3] = 0 /\ w[4] = 0       \* below 2^32 mod 62, drawn again
RECURSIVE Printable(_, _, _)
Printable(st, inc, n) ==
  IF n = 0 THEN <<<<>>, st>>
  ELSE LET w == Out(st) IN
       IF Low(w) THEN Printable(Step(st, inc), inc, n)
       ELSE LET r == Printable(Step(st, inc), inc, n - 1) IN <<<<Alpha[Mod(w, 62) + 1]>> \o r[1], r[2]>>
\* 53 bits of a number in [0, 1): of 63 bits made of two results the 10 lowest are dropped
Unit(a, b) ==
  LET bit(i) == (IF i >= 31 THEN (a[(i - 31) \div 8 + 1] \div 2^((i - 31) % 8)) % 2 ELSE 0)
              + (IF i < 32 THEN (b[i \div 8 + 1] \div 2^(i % 8)) % 2 ELSE 0)
  IN FromBits([j \in 1..56 |-> IF j + 9 < 63 THEN bit(j + 9) % 2 ELSE 0], 7)
=============================================================================
