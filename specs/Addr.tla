-------------------------------- MODULE Addr ---------------------------------
(* Texts of IPv4 and IPv6 addresses (RFC 4291 section 2.2) and what they mean:  *)
(* a sequence of 4 or 16 bytes.                                                 *)
EXTENDS Numbers, FiniteSets
Split(s, ch) ==        \* pieces between occurrences of ch
  FoldLeft(LAMBDA a, x : IF x = ch THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, x)], <<<<>>>>, s)
Byte3(d)  == FoldLeft(LAMBDA a, x : a * 10 + x - 48, 0, d)
Octet(d)  == Len(d) \in 1..3 /\ (\A i \in DOMAIN d : Digit(d[i])) /\ (Len(d) > 1 => d[1] # 48) /\ Byte3(d) < 256
Is4(s)    == LET p == Split(s, 46) IN Len(p) = 4 /\ \A i \in DOMAIN p : Octet(p[i])
Of4(s)    == LET p == Split(s, 46) IN [i \in 1..4 |-> Byte3(p[i])]
Hex(ch)   == IF Digit(ch) THEN ch - 48 ELSE IF ch \in 97..102 THEN ch - 87 ELSE IF ch \in 65..70 THEN ch - 55 ELSE -1
Word(g)   == Len(g) \in 1..4 /\ \A i \in DOMAIN g : Hex(g[i]) >= 0
Bytes2(g) == LET v == FoldLeft(LAMBDA a, x : a * 16 + Hex(x), 0, g) IN <<v \div 256, v % 256>>
\* groups between colons; the last one can be an IPv4 address
Side(s)     == IF s = <<>> THEN <<>> ELSE Split(s, 58)
SideOk(p, last) == \A i \in DOMAIN p : Word(p[i]) \/ (last /\ i = Len(p) /\ Is4(p[i]))
SideBytes(p) == FoldLeft(LAMBDA a, g : a \o (IF Word(g) THEN Bytes2(g) ELSE Of4(g)), <<>>, p)
Gaps(s)   == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 58}
Is6(s) ==
  IF Gaps(s) = {} THEN SideOk(Side(s), TRUE) /\ Len(SideBytes(Side(s))) = 16
  ELSE LET i == CHOOSE i \in Gaps(s) : \A j \in Gaps(s) : i <= j
           a == Side(SubSeq(s, 1, i - 1))
           b == Side(SubSeq(s, i + 2, Len(s)))
       IN /\ Cardinality(Gaps(s)) = 1
          /\ SideOk(a, FALSE) /\ SideOk(b, TRUE)
          /\ Len(SideBytes(a)) + Len(SideBytes(b)) <= 14
Of6(s) ==
  IF Gaps(s) = {} THEN SideBytes(Side(s))
  ELSE LET i == CHOOSE i \in Gaps(s) : TRUE
           a == SideBytes(Side(SubSeq(s, 1, i - 1)))
           b == SideBytes(Side(SubSeq(s, i + 2, Len(s))))
       IN a \o [j \in 1..(16 - Len(a) - Len(b)) |-> 0] \o b
IsIp(s) == Is4(s) \/ Is6(s)
Ip(s)   == IF Is4(s) THEN Of4(s) ELSE Of6(s)

\* <ip>:<port>, where the address itself can contain colons
LastColon(s)   == LET c == {i \in DOMAIN s : s[i] = 58} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i >= j
Host(s)   == SubSeq(s, 1, LastColon(s) - 1)
PortT(s)  == SubSeq(s, LastColon(s) + 1, Len(s))
IsIpPort(s) == LastColon(s) > 0 /\ IsIp(Host(s)) /\ Parses("u16", PortT(s))
Port(s)   == FoldLeft(LAMBDA a, x : a * 10 + x, 0, Value(PortT(s))[2])

Multicast(a) == IF Len(a) = 4 THEN a[1] \in 224..239 ELSE a[1] = 255
Local(a)     == IF Len(a) = 4 THEN a[1] = 127 ELSE a = [i \in 1..16 |-> IF i = 16 THEN 1 ELSE 0]
\* What an address object tells about itself: text of the ip, port, text of both, multicast, local, IPv4 bytes
Tells(a, port, t) ==
  /\ IsIp(t[1]) /\ Ip(t[1]) = a
  /\ t[2] = port
  /\ t[3] = t[1] \o <<58>> \o Text(Num(1, <<port \div 10000, (port \div 1000) % 10, (port \div 100) % 10, (port \div 10) % 10, port % 10>>))
  /\ t[4] = Multicast(a)
  /\ t[5] = Local(a)
  /\ t[6] = IF Len(a) = 4 THEN a ELSE <<0, 0, 0, 0>>
  /\ t[7] = t[3]            \* written to a stream
=============================================================================
