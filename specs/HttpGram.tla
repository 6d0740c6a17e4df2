------------------------------ MODULE HttpGram ------------------------------
(* The HTTP/1.x message grammar the library documents, as an automaton over   *)
(* bytes: request and response headers, bodies by length or in chunks.  Text  *)
(* is a sequence of byte values.  A byte sequence has one outcome: "more"     *)
(* (incomplete), "good" after a number of bytes, or "err".                    *)
(* Tolerances: LF for CRLF everywhere, empty lines before a request, blanks   *)
(* before ':' and around values, folded values, empty elements in the         *)
(* connection and transfer-encoding lists, any case where HTTP has none.      *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets
CR == 13
LF == 10
SP == 32
\* text from a TLA+ string is not possible; constants by codes
T_contentlength == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
T_transferencoding == <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>
T_chunked == <<99,104,117,110,107,101,100>>
T_identity == <<105,100,101,110,116,105,116,121>>
T_host == <<104,111,115,116>>
T_origin == <<111,114,105,103,105,110>>
T_contenttype == <<99,111,110,116,101,110,116,45,116,121,112,101>>
T_connection == <<99,111,110,110,101,99,116,105,111,110>>
T_close == <<99,108,111,115,101>>
T_keepalive == <<107,101,101,112,45,97,108,105,118,101>>
T_upgrade == <<117,112,103,114,97,100,101>>
T_authorization == <<97,117,116,104,111,114,105,122,97,116,105,111,110>>
T_basic == <<98,97,115,105,99>>
T_websocket == <<119,101,98,115,111,99,107,101,116>>
T_wskey == <<115,101,99,45,119,101,98,115,111,99,107,101,116,45,107,101,121>>
T_wsversion == <<115,101,99,45,119,101,98,115,111,99,107,101,116,45,118,101,114,115,105,111,110>>
T_wsaccept == <<115,101,99,45,119,101,98,115,111,99,107,101,116,45,97,99,99,101,112,116>>
T_date == <<100,97,116,101>>
T_server == <<115,101,114,118,101,114>>

Blank(c) == c = 32 \/ c = 9
Ctl(c)   == c <= 31 \/ c = 127
Digit(c) == c >= 48 /\ c <= 57
Special  == {40, 41, 60, 62, 64, 44, 59, 58, 92, 34, 47, 91, 93, 63, 61, 123, 125, 32, 9}
TokenChar(c) == c > 31 /\ c < 127 /\ c \notin Special
Low(c)   == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lower(s) == [i \in DOMAIN s |-> Low(s[i])]
Hex(c)   == IF Digit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ Blank(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ Blank(s[1]) THEN TrimL(Tail(s)) ELSE s
\* decimal number as digit values; uint64 range decided on the digits
MaxU64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
RECURSIVE LexLE(_, _)
LexLE(a, b) == a = <<>> \/ Head(a) < Head(b) \/ (Head(a) = Head(b) /\ LexLE(Tail(a), Tail(b)))
\* "0" or digits without leading zero, optional plus sign, blanks around
Number(v) ==
  LET t == TrimL(TrimR(v))
      u == IF t # <<>> /\ t[1] = 43 THEN Tail(t) ELSE t
      ok == /\ u # <<>> /\ \A i \in DOMAIN u : Digit(u[i])
            /\ (Len(u) > 1 => u[1] # 48)
            /\ (Len(u) < 20 \/ (Len(u) = 20 /\ LexLE([i \in DOMAIN u |-> u[i] - 48], MaxU64)))
  IN IF ok THEN u ELSE <<>>
Fields == [method |-> <<>>, path |-> <<>>, query |-> <<>>, maj |-> 0, min |-> 0, ka |-> TRUE, cl |-> <<>>, chunked |-> FALSE, tes |-> <<>>,
           up |-> FALSE, ws |-> FALSE, mime |-> <<>>, suffix |-> <<>>, auth |-> <<>>, host |-> <<>>, origin |-> <<>>, key |-> <<>>, ver |-> <<>>,
           status |-> 0, text |-> <<>>, accept |-> <<>>, date |-> <<>>, server |-> <<>>, hs |-> <<>>]
P0 == [st |-> "start", n |-> 0, tok |-> <<>>, name |-> <<>>, cms |-> FALSE, hx |-> 0, f |-> Fields]
P0R == [P0 EXCEPT !.st = "H", !.f.maj = 0]
Err == [st |-> "err"]
\* one header (or list element) is complete
ContentType(f, v) ==
  LET cut == CHOOSE i \in 1..(Len(v) + 1) : (i = Len(v) + 1 \/ v[i] \in {59, 32, 9}) /\ \A j \in 1..(i - 1) : v[j] \notin {59, 32, 9}
      r1 == TrimL(SubSeq(v, cut, Len(v)))
      r2 == IF r1 # <<>> /\ r1[1] = 59 THEN Tail(r1) ELSE r1
  IN [f EXCEPT !.mime = Lower(SubSeq(v, 1, cut - 1)), !.suffix = TrimL(r2)]
Basic(f, v) ==
  IF Len(v) >= 6 /\ Lower(SubSeq(v, 1, 5)) = T_basic /\ Blank(v[6]) THEN [f EXCEPT !.auth = TrimL(SubSeq(v, 6, Len(v)))] ELSE f
BadF == [bad |-> TRUE]
Ready(k, f, name, cms, raw) ==
  LET v == TrimR(raw) IN
  IF cms /\ v = <<>> THEN f
  ELSE IF name = T_contentlength THEN
         IF f.cl # <<>> \/ Number(v) = <<>> THEN BadF ELSE [f EXCEPT !.cl = Number(v)]
  ELSE IF name = T_transferencoding THEN
         LET w == Lower(v) IN
         IF w = T_chunked THEN [f EXCEPT !.chunked = TRUE]
         ELSE IF w = T_identity THEN f
         ELSE IF f.chunked THEN BadF                       \* chunked must be the last one
         ELSE [f EXCEPT !.tes = Append(@, w)]
  ELSE IF name = T_contenttype THEN ContentType(f, v)
  ELSE IF name = T_connection THEN
         LET w == Lower(v) IN
         IF w = T_close THEN [f EXCEPT !.ka = FALSE] ELSE IF w = T_keepalive THEN [f EXCEPT !.ka = TRUE]
         ELSE IF w = T_upgrade THEN [f EXCEPT !.up = TRUE] ELSE BadF
  ELSE IF name = T_upgrade THEN IF Lower(v) = T_websocket THEN [f EXCEPT !.ws = TRUE] ELSE BadF
  ELSE IF k = "req" /\ name = T_host THEN [f EXCEPT !.host = v]
  ELSE IF k = "req" /\ name = T_origin THEN [f EXCEPT !.origin = v]
  ELSE IF k = "req" /\ name = T_authorization THEN Basic(f, v)
  ELSE IF k = "req" /\ name = T_wskey THEN [f EXCEPT !.key = v]
  ELSE IF k = "req" /\ name = T_wsversion THEN [f EXCEPT !.ver = v]
  ELSE IF k = "resp" /\ name = T_wsaccept THEN [f EXCEPT !.accept = v]
  ELSE IF k = "resp" /\ name = T_date THEN [f EXCEPT !.date = v]
  ELSE IF k = "resp" /\ name = T_server THEN [f EXCEPT !.server = v]
  ELSE [f EXCEPT !.hs = Append(@, <<name, v>>)]
To(p, st)       == [p EXCEPT !.st = st]
Push(p, st, c)  == [p EXCEPT !.st = st, !.tok = Append(@, c)]
NewLine(p, c, crst, lfst) == IF c = CR THEN To(p, crst) ELSE IF c = LF THEN To(p, lfst) ELSE Err
ValueByte(k, p, c) ==
  IF c = CR THEN To(p, "hlf") ELSE IF c = LF THEN To(p, "line")
  ELSE IF Ctl(c) THEN Err
  ELSE IF p.cms /\ c = 44 THEN LET f2 == Ready(k, p.f, p.name, TRUE, p.tok) IN
                               IF f2 = BadF THEN Err ELSE [p EXCEPT !.st = "bval", !.tok = <<>>, !.f = f2]
  ELSE Push(p, "val", c)
ColonByte(p, c) ==
  IF Blank(c) THEN To(p, "colon") ELSE IF c = 58 THEN [p EXCEPT !.st = "bval", !.tok = <<>>, !.cms = p.name \in {T_connection, T_transferencoding}] ELSE Err
NameStart(p, c) == IF TokenChar(c) THEN [p EXCEPT !.st = "name", !.name = <<Low(c)>>, !.tok = <<>>] ELSE Err
HeaderEnd(p, c) == IF c = CR THEN To(p, "end") ELSE IF c = LF THEN To(p, "good") ELSE NameStart(p, c)
\* headers common to both
HdrByte(k, p, c) ==
  CASE p.st = "val"   -> ValueByte(k, p, c)
    [] p.st = "name"  -> IF TokenChar(c) THEN [p EXCEPT !.name = Append(@, Low(c))] ELSE ColonByte(p, c)
    [] p.st = "bval"  -> IF Blank(c) THEN p ELSE ValueByte(k, p, c)
    [] p.st = "colon" -> ColonByte(p, c)
    [] p.st = "hlf"   -> IF c = LF THEN To(p, "line") ELSE Err
    [] p.st = "line"  -> IF Blank(c) THEN Push(p, "val", c)
                         ELSE LET f2 == Ready(k, p.f, p.name, p.cms, p.tok) IN
                              IF f2 = BadF THEN Err ELSE HeaderEnd([p EXCEPT !.f = f2, !.name = <<>>, !.tok = <<>>], c)
    [] p.st = "end"   -> IF c = LF THEN To(p, "good") ELSE Err
    [] OTHER          -> Err
Target(p, f2) == [p EXCEPT !.st = "ver", !.tok = <<>>, !.f = f2]
ReqByte(p, c) ==
  CASE p.st = "start" -> IF c = CR THEN To(p, "startlf") ELSE IF c = LF THEN p ELSE IF TokenChar(c) THEN Push(p, "method", c) ELSE Err
    [] p.st = "startlf" -> IF c = LF THEN To(p, "start") ELSE Err
    [] p.st = "method" -> IF Blank(c) THEN [p EXCEPT !.st = "uri0", !.f.method = p.tok, !.tok = <<>>] ELSE IF TokenChar(c) THEN Push(p, "method", c) ELSE Err
    [] p.st = "uri0" -> IF Blank(c) THEN p ELSE IF Ctl(c) \/ c = 35 \/ c = 63 THEN Err ELSE IF c = 37 THEN To(p, "pct1") ELSE Push(p, "uri", c)
    [] p.st = "uri" -> IF Blank(c) THEN Target(p, [p.f EXCEPT !.path = p.tok]) ELSE IF Ctl(c) THEN Err
                       ELSE IF c = 35 THEN [p EXCEPT !.st = "anchor", !.f.path = p.tok, !.tok = <<>>]
                       ELSE IF c = 63 THEN [p EXCEPT !.st = "query", !.f.path = p.tok, !.tok = <<>>]
                       ELSE IF c = 37 THEN To(p, "pct1") ELSE Push(p, "uri", c)
    [] p.st = "pct1" -> IF Hex(c) < 0 THEN Err ELSE [p EXCEPT !.st = "pct2", !.hx = Hex(c)]
    [] p.st = "pct2" -> IF Hex(c) < 0 THEN Err ELSE Push(p, "uri", p.hx * 16 + Hex(c))
    [] p.st = "query" -> IF Blank(c) THEN Target(p, [p.f EXCEPT !.query = p.tok]) ELSE IF Ctl(c) THEN Err
                         ELSE IF c = 35 THEN [p EXCEPT !.st = "anchor", !.f.query = p.tok, !.tok = <<>>] ELSE Push(p, "query", c)
    [] p.st = "anchor" -> IF Blank(c) THEN To(p, "ver") ELSE IF Ctl(c) THEN Err ELSE p
    [] p.st = "ver" -> IF Blank(c) THEN p ELSE IF c = 72 THEN To(p, "HT") ELSE Err
    [] p.st = "HT" -> IF c = 84 THEN To(p, "HTT") ELSE Err
    [] p.st = "HTT" -> IF c = 84 THEN To(p, "HTTP") ELSE Err
    [] p.st = "HTTP" -> IF c = 80 THEN To(p, "slash") ELSE Err
    [] p.st = "slash" -> IF c = 47 THEN To(p, "maj0") ELSE Err
    [] p.st = "maj0" -> IF Digit(c) /\ c <= 49 THEN [p EXCEPT !.st = "maj", !.f.maj = c - 48] ELSE Err
    [] p.st = "maj" -> IF c = 46 THEN To(p, "min0") ELSE IF Digit(c) /\ p.f.maj * 10 + c - 48 <= 1 THEN [p EXCEPT !.f.maj = @ * 10 + c - 48] ELSE Err
    [] p.st = "min0" -> IF Digit(c) THEN [p EXCEPT !.st = "min", !.f.min = c - 48] ELSE Err
    [] p.st = "min" -> IF c \in {CR, LF} THEN NewLine(p, c, "reqlf", "first") ELSE IF Blank(c) THEN To(p, "reqb")
                       ELSE IF Digit(c) /\ p.f.min * 10 + c - 48 <= 99 THEN [p EXCEPT !.f.min = @ * 10 + c - 48] ELSE Err
    [] p.st = "reqb" -> IF Blank(c) THEN p ELSE NewLine(p, c, "reqlf", "first")
    [] p.st = "reqlf" -> IF c = LF THEN To(p, "first") ELSE Err
    [] p.st = "first" -> HeaderEnd([p EXCEPT !.f.ka = p.f.maj = 1 /\ p.f.min >= 1], c)
    [] OTHER -> HdrByte("req", p, c)
RespByte(p, c) ==
  CASE p.st = "H" -> IF c = 72 THEN To(p, "HT") ELSE Err
    [] p.st = "HT" -> IF c = 84 THEN To(p, "HTT") ELSE Err
    [] p.st = "HTT" -> IF c = 84 THEN To(p, "HTTP") ELSE Err
    [] p.st = "HTTP" -> IF c = 80 THEN To(p, "slash") ELSE Err
    [] p.st = "slash" -> IF c = 47 THEN To(p, "maj0") ELSE Err
    [] p.st = "maj0" -> IF Digit(c) /\ c <= 49 THEN [p EXCEPT !.st = "maj", !.f.maj = c - 48] ELSE Err
    [] p.st = "maj" -> IF c = 46 THEN To(p, "min0") ELSE IF Digit(c) /\ p.f.maj * 10 + c - 48 <= 1 THEN [p EXCEPT !.f.maj = @ * 10 + c - 48] ELSE Err
    [] p.st = "min0" -> IF Digit(c) THEN [p EXCEPT !.st = "min", !.f.min = c - 48] ELSE Err
    [] p.st = "min" -> IF Blank(c) THEN [p EXCEPT !.st = "code1", !.f.ka = p.f.maj = 1 /\ p.f.min >= 1]
                       ELSE IF Digit(c) /\ p.f.min * 10 + c - 48 <= 99 THEN [p EXCEPT !.f.min = @ * 10 + c - 48] ELSE Err
    [] p.st = "code1" -> IF Blank(c) THEN p ELSE IF Digit(c) THEN [p EXCEPT !.st = "code2", !.f.status = c - 48] ELSE Err
    [] p.st = "code2" -> IF Digit(c) THEN [p EXCEPT !.st = "code3", !.f.status = @ * 10 + c - 48] ELSE Err
    [] p.st = "code3" -> IF Digit(c) THEN [p EXCEPT !.st = "codesp", !.f.status = @ * 10 + c - 48] ELSE Err
    [] p.st = "codesp" -> IF Blank(c) THEN To(p, "text0") ELSE NewLine(p, c, "statlf", "first")
    [] p.st = "text0" /\ Blank(c) -> p
    [] p.st \in {"text0", "text"} -> IF c \in {CR, LF} THEN NewLine(p, c, "statlf", "first") ELSE IF Ctl(c) THEN Err ELSE Push(p, "text", c)
    [] p.st = "statlf" -> IF c = LF THEN To(p, "first") ELSE Err
    [] p.st = "first" -> HeaderEnd([p EXCEPT !.f.text = TrimR(p.tok), !.tok = <<>>], c)
    [] OTHER -> HdrByte("resp", p, c)
\* at most lim bytes
HeadByte(k, lim, p, c) ==
  IF p.st \in {"good", "err"} THEN p
  ELSE IF p.n >= lim THEN Err
  ELSE LET q == [p EXCEPT !.n = @ + 1] IN IF k = "req" THEN ReqByte(q, c) ELSE RespByte(q, c)
Head0(k) == IF k = "req" THEN P0 ELSE P0R
HeadParse(k, lim, s) == FoldLeft(LAMBDA p, c : HeadByte(k, lim, p, c), Head0(k), s)
-----------------------------------------------------------------------------
(* Bodies.  left: bytes still missing (numbers beyond Huge are never reached), *)
(* nd: significant hex digits of the chunk size; n: bytes used, hn/tn: bytes   *)
(* of chunk headers / trailers against their limits.                           *)
Huge == 1000000
DecVal(d) == IF Len(d) > 6 THEN Huge ELSE FoldLeft(LAMBDA a, c : a * 10 + c - 48, 0, d)
Body0(cl, chunked) ==
  LET b == [st |-> "len", left |-> 0, nd |-> 0, body |-> <<>>, n |-> 0, hn |-> 0, tn |-> 0] IN
  IF chunked THEN [b EXCEPT !.st = "size0"]
  ELSE IF cl = <<>> \/ DecVal(cl) = 0 THEN [b EXCEPT !.st = "good"] ELSE [b EXCEPT !.left = DecVal(cl)]
AfterSize(b) == To(b, IF b.nd = 0 THEN "tr0" ELSE "chunk")
SizeDigit(b, c) == IF Hex(c) < 0 \/ b.nd = 16 THEN Err
                   ELSE [b EXCEPT !.st = "size", !.left = IF @ >= Huge THEN Huge ELSE @ * 16 + Hex(c), !.nd = IF @ = 0 /\ Hex(c) = 0 THEN 0 ELSE @ + 1]
ChunkByte(b, c) ==
  CASE b.st \in {"len", "chunk"} ->
        LET d == [b EXCEPT !.body = Append(@, c), !.left = IF @ >= Huge THEN Huge ELSE @ - 1] IN
        IF d.left > 0 THEN d ELSE IF b.st = "len" THEN To(d, "good") ELSE [d EXCEPT !.st = "ccr", !.hn = 0]
    [] b.st = "ccr" -> IF Blank(c) THEN b ELSE IF c = CR THEN To(b, "clf") ELSE IF c = LF THEN To(b, "size0") ELSE Err
    [] b.st = "clf" -> IF c = LF THEN To(b, "size0") ELSE Err
    [] b.st = "size0" -> IF Blank(c) THEN b ELSE SizeDigit([b EXCEPT !.left = 0, !.nd = 0], c)
    [] b.st = "size" -> IF Blank(c) \/ c = 59 THEN To(b, "ext") ELSE IF c = CR THEN To(b, "slf") ELSE IF c = LF THEN AfterSize(b) ELSE SizeDigit(b, c)
    [] b.st = "ext" -> IF c = CR THEN To(b, "slf") ELSE IF c = LF THEN AfterSize(b) ELSE b
    [] b.st = "slf" -> IF c = LF THEN AfterSize(b) ELSE Err
    [] b.st = "tr0" -> IF c = CR THEN To(b, "end") ELSE IF c = LF THEN To(b, "good") ELSE IF TokenChar(c) THEN To(b, "tr") ELSE Err
    [] b.st = "tr" -> IF c = CR THEN To(b, "trlf") ELSE IF c = LF THEN To(b, "tr0") ELSE b
    [] b.st = "trlf" -> IF c = LF THEN To(b, "tr0") ELSE Err
    [] b.st = "end" -> IF c = LF THEN To(b, "good") ELSE Err
    [] OTHER -> Err
BodyByte(mh, mt, b, c) ==
  IF b.st \in {"good", "err"} THEN b
  ELSE LET q == [b EXCEPT !.n = @ + 1] IN
       IF b.st \in {"len", "chunk"} THEN ChunkByte(q, c)
       ELSE IF b.hn > mh \/ b.tn > mt THEN Err
       ELSE ChunkByte(IF b.st \in {"tr0", "tr", "trlf", "end"} THEN [q EXCEPT !.tn = @ + 1] ELSE [q EXCEPT !.hn = @ + 1], c)
BodyParse(cl, chunked, mh, mt, s) == FoldLeft(LAMBDA b, c : BodyByte(mh, mt, b, c), Body0(cl, chunked), s)
-----------------------------------------------------------------------------
(* Web socket frame (RFC 6455): header then payload, unmasked                 *)
Ops == {0, 1, 2, 8, 9, 10}
XorTab(a, b) == LET RECURSIVE X(_, _, _)
                    X(u, v, w) == IF w = 0 THEN 0 ELSE (IF u % 2 # v % 2 THEN 1 ELSE 0) + 2 * X(u \div 2, v \div 2, w - 1)
                IN X(a, b, 8)
Frame0 == [st |-> "b0", fin |-> FALSE, op |-> 0, len |-> <<>>, need |-> 0, mask |-> <<>>, masked |-> FALSE, n |-> 0, left |-> 0, body |-> <<>>]
LenVal(l) == IF \E i \in DOMAIN l : Len(l) - i > 2 /\ l[i] > 0 THEN Huge ELSE LET v == FoldLeft(LAMBDA a, c : a * 256 + c, 0, l) IN IF v > Huge THEN Huge ELSE v
HdrDone(w) == LET l == LenVal(w.len) IN [w EXCEPT !.st = IF l = 0 THEN "good" ELSE "body", !.left = l]
LenDone(w) == IF w.masked THEN [w EXCEPT !.st = "mask", !.need = 4] ELSE HdrDone(w)
FrameByte(p, c) ==
  LET w == IF p.st \in {"good", "err"} THEN p ELSE [p EXCEPT !.n = @ + 1] IN
  CASE p.st = "b0" -> IF (c \div 16) % 8 # 0 \/ c % 16 \notin Ops THEN Err ELSE [w EXCEPT !.st = "b1", !.fin = c >= 128, !.op = c % 16]
    [] p.st = "b1" -> LET l == c % 128
                          v == [w EXCEPT !.masked = c >= 128] IN
                      IF p.op >= 8 /\ (l > 125 \/ ~p.fin) THEN Err
                      ELSE IF l = 126 THEN [v EXCEPT !.st = "len", !.need = 2]
                      ELSE IF l = 127 THEN [v EXCEPT !.st = "len", !.need = 8]
                      ELSE LenDone([v EXCEPT !.len = <<l>>])
    [] p.st = "len" -> LET v == [w EXCEPT !.len = Append(@, c), !.need = @ - 1] IN IF v.need = 0 THEN LenDone(v) ELSE v
    [] p.st = "mask" -> LET v == [w EXCEPT !.mask = Append(@, c), !.need = @ - 1] IN IF v.need = 0 THEN HdrDone(v) ELSE v
    [] p.st = "body" -> LET d == IF p.masked THEN XorTab(c, p.mask[(Len(p.body) % 4) + 1]) ELSE c
                            v == [w EXCEPT !.body = Append(@, d), !.left = IF @ >= Huge THEN @ ELSE @ - 1] IN
                        IF v.left = 0 THEN To(v, "good") ELSE v
    [] OTHER -> p
FrameParse(s) == FoldLeft(FrameByte, Frame0, s)
=============================================================================
