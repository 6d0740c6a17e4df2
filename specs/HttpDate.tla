------------------------------ MODULE HttpDate -------------------------------
(* The fixed date format of HTTP (RFC 7231, 7.1.1.1): "Sun, 06 Nov 1994        *)
(* 08:49:37 GMT", as a value <<days since 1970-01-01, second of the day>>.     *)
EXTENDS Naturals, Integers, Sequences
DayNames == << <<83,117,110>>, <<77,111,110>>, <<84,117,101>>, <<87,101,100>>, <<84,104,117>>, <<70,114,105>>, <<83,97,116>> >>
MonNames == << <<74,97,110>>, <<70,101,98>>, <<77,97,114>>, <<65,112,114>>, <<77,97,121>>, <<74,117,110>>,
               <<74,117,108>>, <<65,117,103>>, <<83,101,112>>, <<79,99,116>>, <<78,111,118>>, <<68,101,99>> >>
MonLen   == << 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 >>
Leap(y)  == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MLen(y, m) == IF m = 2 /\ Leap(y) THEN 29 ELSE MonLen[m]
\* days before the first of January of y
Before(y) == LET z == y - 1 IN (y - 1970) * 365 + (z \div 4 - z \div 100 + z \div 400) - (1969 \div 4 - 1969 \div 100 + 1969 \div 400)
InYear(y, m) == LET F[i \in 0..12] == IF i = 0 THEN 0 ELSE F[i - 1] + MLen(y, i) IN F[m - 1]
DayNo(y, m, d) == Before(y) + InYear(y, m) + d - 1
WeekDay(n) == 1 + ((n + 4) % 7)                     \* 1970-01-01 was a Thursday
Digs(t, a, b) == \A i \in a..b : t[i] \in 48..57
Two(t, a)  == 10 * (t[a] - 48) + t[a + 1] - 48
Lit(t, a, s) == SubSeq(t, a, a + Len(s) - 1) = s
Month(t)   == IF \E m \in 1..12 : Lit(t, 9, MonNames[m]) THEN CHOOSE m \in 1..12 : Lit(t, 9, MonNames[m]) ELSE 0
Form(t) == /\ Len(t) = 29 /\ Lit(t, 4, <<44, 32>>) /\ t[8] = 32 /\ t[12] = 32 /\ t[17] = 32 /\ t[20] = 58 /\ t[23] = 58
           /\ Lit(t, 26, <<32, 71, 77, 84>>) /\ Digs(t, 6, 7) /\ Digs(t, 13, 16) /\ Digs(t, 18, 19) /\ Digs(t, 21, 22) /\ Digs(t, 24, 25)
           /\ Month(t) # 0
Year(t) == 100 * Two(t, 13) + Two(t, 15)
Day(t)  == DayNo(Year(t), Month(t), Two(t, 6))
Good(t) == /\ Form(t) /\ Two(t, 6) \in 1..MLen(Year(t), Month(t)) /\ Two(t, 18) < 24 /\ Two(t, 21) < 60 /\ Two(t, 24) < 60
           /\ Lit(t, 1, DayNames[WeekDay(Day(t))])
Sec(t)  == 3600 * Two(t, 18) + 60 * Two(t, 21) + Two(t, 24)
NotAfter(d1, s1, d2, s2) == d1 < d2 \/ (d1 = d2 /\ s1 <= s2)
\* the date of a moment between two
Between(t, d1, s1, d2, s2) == Good(t) /\ NotAfter(d1, s1, Day(t), Sec(t)) /\ NotAfter(Day(t), Sec(t), d2, s2)
=============================================================================
