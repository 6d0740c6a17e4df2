---------------------------- MODULE DigestTrace ------------------------------
(* A digest is fed piece by piece; its result is that of the whole.            *)
EXTENDS TraceBase, Digest
U == INSTANCE Utf8
VARIABLES kind, msg
New(k)   == kind' = k /\ msg' = <<>>
Feed(b)  == kind # "" /\ msg' = msg \o b /\ UNCHANGED kind
Final(r) == kind # "" /\ r = (IF kind = "md5" THEN MD5(msg) ELSE SHA1(msg)) /\ kind' = "" /\ UNCHANGED msg
Crc(r)   == kind \in {"crc32", "crc32c"} /\ <<r[1] * 256 + r[2], r[3] * 256 + r[4]>> = CRC(kind, msg) /\ UNCHANGED <<kind, msg>>
\* published values of n zero bytes, too long to be computed here
Long(k, n, r) == (LET z == LongAgo IN \E i \in DOMAIN z : z[i] = <<k, n, r>>) /\ UNCHANGED <<kind, msg>>
Pure(p) == p /\ UNCHANGED <<kind, msg>>
Step(e) ==
  \/ e[1] = "new"   /\ New(e[2])
  \/ e[1] = "feed"  /\ Feed(e[2])
  \/ e[1] = "final" /\ Final(e[2])
  \/ e[1] = "crc"   /\ Crc(e[2])
  \/ e[1] = "long"  /\ Long(e[2], e[3], e[4])
  \/ e[1] = "enc"   /\ Pure(e[3] = B64(e[2]))
  \/ e[1] = "dec"   /\ Pure(e[3] = Good64(e[2]) /\ (e[3] => e[4] = UnB64(e[2])))
  \/ e[1] = "hex"   /\ Pure(e[3] = Hexed(e[2]))
  \/ e[1] = "unhex" /\ Pure(e[3] = GoodHex(e[2]) /\ (e[3] => e[4] = UnHex(e[2])))
  \/ e[1] = "utf8"  /\ Pure(e[3] = U!Utf8(e[2]))
TInit == TraceInitBase /\ kind = "" /\ msg = <<>>
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l, kind, msg>>
=============================================================================
