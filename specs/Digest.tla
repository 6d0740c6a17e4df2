------------------------------- MODULE Digest --------------------------------
(* MD5 (RFC 1321), SHA-1 (FIPS 180-4), CRC-32 and CRC-32C (reflected, bit by    *)
(* bit), base64 (RFC 4648) and hexadecimal, as functions of byte sequences.    *)
(* A 32-bit word is a pair <<high, low>> of 16-bit numbers.                     *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
B16 == 65536
Add(x, y)  == LET l == x[2] + y[2] IN <<(x[1] + y[1] + l \div B16) % B16, l % B16>>
WAnd(x, y) == <<x[1] & y[1], x[2] & y[2]>>
WOr(x, y)  == <<x[1] | y[1], x[2] | y[2]>>
WXor(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
WNot(x)    == <<65535 - x[1], 65535 - x[2]>>
RotS(x, n) == IF n = 0 THEN x
              ELSE LET p == 2^n  r == 2^(16 - n) IN <<(x[1] % r) * p + x[2] \div r, (x[2] % r) * p + x[1] \div r>>
Rotl(x, n) == IF n >= 16 THEN RotS(<<x[2], x[1]>>, n - 16) ELSE RotS(x, n)
BE(s, i)   == <<s[i] * 256 + s[i + 1], s[i + 2] * 256 + s[i + 3]>>
LE(s, i)   == <<s[i + 3] * 256 + s[i + 2], s[i + 1] * 256 + s[i]>>
ToBE(w)    == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
ToLE(w)    == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
Upto(n)    == [i \in 1..n |-> i]
Flat(ss)   == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

\* padding: 1 bit, zeros, length in bits as two words
Bits(n) == <<<<0, n \div 536870912>>, <<(n \div 8192) % B16, (n % 8192) * 8>>>>       \* high and low word of 8 n
Padded(m, be) ==
  LET n == Len(m)
      z == (119 - (n % 64)) % 64
      b == Bits(n)
  IN m \o <<128>> \o [i \in 1..z |-> 0] \o (IF be THEN ToBE(b[1]) \o ToBE(b[2]) ELSE ToLE(b[2]) \o ToLE(b[1]))

\* ---- MD5
MK == << <<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>, <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>, <<64838, 38145>>, <<27008,
  39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>, <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>, <<18868, 2081>>, <<63006, 9570>>,
  <<49216, 45888>>, <<9822, 23121>>, <<59830, 51114>>, <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>, <<59347, 64456>>, <<8673, 52710>>, <<49975,
  2006>>, <<62677, 3463>>, <<17754, 5357>>, <<43491, 59653>>, <<64751, 41976>>, <<26479, 729>>, <<36138, 19594>>, <<65530, 14658>>, <<34673, 63105>>,
  <<28061, 24866>>, <<64997, 14348>>, <<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>, <<10395, 32454>>, <<60065, 10234>>,
  <<54511, 12421>>, <<1160, 7429>>, <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>, <<62505, 8772>>, <<17194, 65431>>, <<43924,
  9127>>, <<64659, 41017>>, <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>, <<34180, 24017>>, <<28584, 32335>>, <<65068, 59104>>, <<41729,
  17172>>, <<19976, 4513>>, <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>> >>
MS == <<<<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>>>>
MStep(s, i, x) ==      \* i in 0..63; s = <<a, b, c, d>>
  LET r == i \div 16
      a == s[1]  b == s[2]  c == s[3]  d == s[4]
      f == CASE r = 0 -> WOr(WAnd(b, c), WAnd(WNot(b), d))
             [] r = 1 -> WOr(WAnd(d, b), WAnd(WNot(d), c))
             [] r = 2 -> WXor(b, WXor(c, d))
             [] r = 3 -> WXor(c, WOr(b, WNot(d)))
      g == CASE r = 0 -> i [] r = 1 -> (5 * i + 1) % 16 [] r = 2 -> (3 * i + 5) % 16 [] r = 3 -> (7 * i) % 16
  IN <<d, Add(b, Rotl(Add(Add(a, f), Add(MK[i + 1], x[g + 1])), MS[r + 1][(i % 4) + 1])), b, c>>
MBlock(st, p, o) ==
  LET x == [i \in 1..16 |-> LE(p, o + 4 * (i - 1) + 1)]
      e == FoldLeft(LAMBDA s, i : MStep(s, i - 1, x), st, Upto(64))
  IN [i \in 1..4 |-> Add(st[i], e[i])]
MD5(m) ==
  LET p == Padded(m, FALSE)
      e == FoldLeft(LAMBDA s, k : MBlock(s, p, 64 * (k - 1)), <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>>>, Upto(Len(p) \div 64))
  IN Flat([i \in 1..4 |-> ToLE(e[i])])

\* ---- SHA-1
SK == <<<<23170, 31129>>, <<28377, 60321>>, <<36635, 48348>>, <<51810, 49622>>>>
SStep(s, t, w) ==
  LET r == t \div 20
      b == s[2]  c == s[3]  d == s[4]
      f == CASE r = 0 -> WOr(WAnd(b, c), WAnd(WNot(b), d))
             [] r = 2 -> WOr(WAnd(b, c), WOr(WAnd(b, d), WAnd(c, d)))
             [] OTHER -> WXor(b, WXor(c, d))
  IN <<Add(Add(Rotl(s[1], 5), f), Add(Add(s[5], SK[r + 1]), w[t + 1])), s[1], Rotl(b, 30), c, d>>
SBlock(st, p, o) ==
  LET w == FoldLeft(LAMBDA a, t : Append(a, Rotl(WXor(WXor(a[t - 3], a[t - 8]), WXor(a[t - 14], a[t - 16])), 1)),
                    [i \in 1..16 |-> BE(p, o + 4 * (i - 1) + 1)], [i \in 1..64 |-> 16 + i])
      e == FoldLeft(LAMBDA s, t : SStep(s, t - 1, w), st, Upto(80))
  IN [i \in 1..5 |-> Add(st[i], e[i])]
SHA1(m) ==
  LET p == Padded(m, TRUE)
      e == FoldLeft(LAMBDA s, k : SBlock(s, p, 64 * (k - 1)),
                    <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>, Upto(Len(p) \div 64))
  IN Flat([i \in 1..5 |-> ToBE(e[i])])

\* ---- CRC: reflected polynomials 0xEDB88320 and 0x82F63B78
Poly(k) == IF k = "crc32" THEN <<60856, 33568>> ELSE <<33526, 15224>>
Half(x) == <<x[1] \div 2, (x[1] % 2) * 32768 + x[2] \div 2>>
CrcByte(poly, r, b) ==
  FoldLeft(LAMBDA x, i : IF x[2] % 2 = 1 THEN WXor(Half(x), poly) ELSE Half(x), <<r[1], r[2] ^^ b>>, Upto(8))
CRC(k, m) == WNot(FoldLeft(LAMBDA r, b : CrcByte(Poly(k), r, b), <<65535, 65535>>, m))

\* known results (computed with OpenSSL) of 2^29 + 5 zero bytes, whose length in bits needs the high word
LongAgo == <<<<"md5", 536870917, <<83, 248, 60, 73, 11, 116, 53, 215, 226, 5, 70, 107, 253, 152, 72, 130>>>>, <<"sha1", 536870917, <<142, 154, 255, 38, 155, 1, 0, 218, 148, 224, 80, 21, 36, 62, 10, 101, 193, 57, 151, 82>>>>>>

\* ---- base64
Sym(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
          ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
Group(m) ==     \* one to three bytes
  LET b(i) == IF i <= Len(m) THEN m[i] ELSE 0 IN
  <<Sym(b(1) \div 4), Sym((b(1) % 4) * 16 + b(2) \div 16),
    IF Len(m) > 1 THEN Sym((b(2) % 16) * 4 + b(3) \div 64) ELSE 61, IF Len(m) > 2 THEN Sym(b(3) % 64) ELSE 61>>
Pieces(m, n) == [k \in 1..((Len(m) + n - 1) \div n) |-> SubSeq(m, n * (k - 1) + 1, IF n * k > Len(m) THEN Len(m) ELSE n * k)]
B64(m) == Flat([k \in 1..Len(Pieces(m, 3)) |-> Group(Pieces(m, 3)[k])])
\* a group of symbols: padded anywhere (concatenated texts), the padding of the last may be missing
Core(g) == IF Len(g) = 4 /\ g[4] = 61 THEN (IF g[3] = 61 THEN SubSeq(g, 1, 2) ELSE SubSeq(g, 1, 3)) ELSE g
GoodGroup(g) == LET c == Core(g) IN Len(c) >= 2 /\ \A i \in DOMAIN c : Val(c[i]) >= 0
UnGroup(g) ==
  LET c == Core(g)
      v(i) == IF i <= Len(c) THEN Val(c[i]) ELSE 0
  IN SubSeq(<<v(1) * 4 + v(2) \div 16, (v(2) % 16) * 16 + v(3) \div 4, (v(3) % 4) * 64 + v(4)>>, 1, Len(c) - 1)
Good64(s) == \A k \in DOMAIN Pieces(s, 4) : GoodGroup(Pieces(s, 4)[k])
UnB64(s)  == Flat([k \in DOMAIN Pieces(s, 4) |-> UnGroup(Pieces(s, 4)[k])])

\* ---- hexadecimal
Dig(v)  == IF v < 10 THEN 48 + v ELSE 87 + v
HVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Hexed(m) == Flat([i \in DOMAIN m |-> <<Dig(m[i] \div 16), Dig(m[i] % 16)>>])
GoodHex(s) == Len(s) % 2 = 0 /\ \A i \in DOMAIN s : HVal(s[i]) >= 0
UnHex(s) == [i \in 1..(Len(s) \div 2) |-> HVal(s[2 * i - 1]) * 16 + HVal(s[2 * i])]
=============================================================================
