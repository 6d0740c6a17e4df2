--------------------------- MODULE HttpGramTrace ---------------------------
(* What the parsers made of byte sequences, for many splittings (C11), what   *)
(* the string decoders made of strings (C20), what headers look like when     *)
(* written and read back (C21), against the grammar.                          *)
EXTENDS TraceBase, HttpGram, HttpText
VARIABLE seen
FieldsOf(k, f) ==
  IF k = "req" THEN <<f.method, f.path, f.query, f.maj, f.min, f.ka, f.cl, f.chunked, f.tes, f.up, f.ws, f.mime, f.suffix, f.auth, f.host, f.origin, f.key, f.ver, f.hs>>
  ELSE <<f.status, f.text, f.maj, f.min, f.ka, f.cl, f.chunked, f.tes, f.up, f.ws, f.mime, f.suffix, f.accept, f.date, f.server, f.hs>>
AllAre(outs, x) == outs # <<>> /\ \A i \in DOMAIN outs : outs[i] = x
HeadEv(e) == LET p == HeadParse(e[2], e[3], e[4]) IN
  AllAre(e[5], IF p.st = "good" THEN <<"good", p.n, FieldsOf(e[2], p.f)>> ELSE IF p.st = "err" THEN <<"err">> ELSE <<"more", Len(e[4])>>)
BodyEv(e) == LET b == BodyParse(e[2], e[3], e[4], e[5], e[6]) IN
  AllAre(e[7], IF b.st = "good" THEN <<"good", b.n, b.body>> ELSE IF b.st = "err" THEN <<"err">> ELSE <<"more", Len(e[6])>>)
Pad(x) == [i \in 1..8 |-> IF i <= 8 - Len(x) THEN 0 ELSE x[i - 8 + Len(x)]]
FrameEv(e) == LET w == FrameParse(e[2]) IN
  AllAre(e[3], IF w.st = "good" THEN <<"good", w.n, w.fin, w.op, Pad(w.len), w.masked, w.mask, w.body>> ELSE IF w.st = "err" THEN <<"err">> ELSE <<"more", Len(e[2])>>)
HdrEv(e) == LET p == HeadParse(e[2], 8192, e[4]) IN      \* written, parsed by the grammar, parsed by the library
  /\ p.st = "good" /\ p.n = Len(e[4])
  /\ FieldsOf(e[2], p.f) = e[3] /\ e[5] = e[3]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Within(x, s) == \E i \in 0..(Len(s) - Len(x)) : SubSeq(s, i + 1, i + Len(x)) = x
T_html == <<116,101,120,116,47,104,116,109,108>>
T_plain == <<116,101,120,116,47,112,108,97,105,110>>
\* a response of a convenience function: <<"simple", kind, status, text given?, text, written header, header read back, body>>
SimpleEv(e) ==
  LET p == HeadParse("resp", 8192, e[6]) IN
  /\ p.st = "good" /\ p.n = Len(e[6]) /\ FieldsOf("resp", p.f) = e[7]
  /\ p.f.status = e[3] /\ p.f.cl = Dec(Len(e[8])) /\ ~p.f.chunked
  /\ IF e[2] = "html" THEN p.f.mime = T_html ELSE e[2] = "text" => p.f.mime = T_plain
  /\ IF e[4] THEN (IF e[2] = "html" THEN Within(e[5], e[8]) ELSE e[8] = e[5]) ELSE Within(Dec(e[3]), e[8])
Step(e) ==
  /\ UNCHANGED seen
  /\ \/ e[1] = "head"  /\ HeadEv(e)
     \/ e[1] = "body"  /\ BodyEv(e)
     \/ e[1] = "frame" /\ FrameEv(e)
     \/ e[1] = "hdr"   /\ HdrEv(e)
     \/ e[1] = "query" /\ QueryOK(e[2], e[3])
     \/ e[1] = "cookie" /\ CookieOK(e[2], e[3])
     \/ e[1] = "uri"   /\ UriOK(e[2], e[3], e[4])
     \/ e[1] = "enc"   /\ EncOK(e[2], e[3], e[4], e[5])
     \/ e[1] = "dec"   /\ DecOK(e[2], e[3])
     \/ e[1] = "params" /\ ParamsOK(e[2], e[3], e[4], e[5], e[6]) /\ e[7] = Len(e[5])
     \/ e[1] = "cookies" /\ CookiesOK(e[2], e[3])
     \/ e[1] = "ctype" /\ CTypeOK(e[2], e[3], e[4])
     \/ e[1] = "auth" /\ AuthOK(e[2], e[3], e[4])
     \/ e[1] = "simple" /\ SimpleEv(e)
     \/ e[1] = "seturi" /\ SetUriOK(e[2], e[3], e[4], e[5])
TInit == TraceInitBase /\ seen = 0
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l, seen>>
=============================================================================
