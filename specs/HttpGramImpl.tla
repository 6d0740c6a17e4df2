---------------------------- MODULE HttpGramImpl ----------------------------
(* The grammar as a transition system over received bytes.  Checked: a line   *)
(* ended by LF alone means the same as one ended by CRLF (p2 runs on the       *)
(* other spelling); nothing happens after the end; with a VIEW on the control  *)
(* state every transition is reached once and printed as a byte string, the    *)
(* input of a conformance run.                                                 *)
EXTENDS HttpGram, TLC, Json
CONSTANTS Kind, MaxLen, Mode       \* Mode: "cover" or "lf"
VARIABLES p, p2, prev, hist, base
vars == <<p, p2, prev, hist, base>>
Bytes == CASE Mode = "lf" /\ Kind = "chunked" -> {CR, LF, SP, 48, 50, 97, 59}
           [] Mode = "lf" -> {CR, LF, SP, 58, 44, 97}
           [] Kind \in {"req", "resp"} -> {0, CR, LF, SP, 9, 35, 37, 40, 44, 46, 47, 48, 49, 50, 57, 58, 59, 61, 63, 65, 72, 80, 84, 97, 102, 103, 127, 128, 255}
           [] Kind = "chunked" -> {0, CR, LF, SP, 9, 48, 49, 50, 65, 102, 103, 59, 61, 97, 128, 255}
           [] OTHER -> {0, 1, 2, 3, 5, 8, 9, 10, 11, 125, 126, 127, 128, 129, 130, 136, 137, 138, 144, 161, 192, 253, 254, 255}
\* short ways into the header part
Begins == CASE Kind = "req" /\ Mode = "lf" -> {<<>>, <<71, 32, 47, 32, 72, 84, 84, 80, 47, 49, 46, 49>>, <<71,32,47,32,72,84,84,80,47,49,46,49,10,97,58,98>>}
              [] Kind = "resp" /\ Mode = "lf" -> {<<72, 84, 84, 80, 47, 49, 46, 49, 32, 50, 48, 48>>, <<72,84,84,80,47,49,46,49,32,50,48,48,10,97,58,98>>}
              [] Kind = "req" -> {<<>>, <<71,32,47,32,72,84,84,80,47,49,46,49,10>> \o T_connection \o <<58>>, <<71,32,47,32,72,84,84,80,47,49,46,49,10>> \o T_transferencoding \o <<58>> \o T_chunked}
              [] Kind = "resp" -> {<<>>, <<72,84,84,80,47,49,46,49,32,50,48,48,10>> \o T_connection \o <<58>>}
              [] OTHER -> {<<>>}
Byte(q, c) == CASE Kind \in {"req", "resp"} -> HeadByte(Kind, 200, q, c)
                [] Kind = "chunked" -> BodyByte(30, 30, q, c)
                [] Kind = "frame" -> FrameByte(q, c)
Start == CASE Kind \in {"req", "resp"} -> Head0(Kind) [] Kind = "chunked" -> Body0(<<>>, TRUE) [] Kind = "frame" -> Frame0
Fold(q, s) == FoldLeft(Byte, q, s)
Init == \E x \in Begins : p = Fold(Start, x) /\ p2 = p /\ prev = (IF x = <<>> THEN 0 ELSE x[Len(x)]) /\ hist = x /\ base = Len(x)
\* the same text with CRLF line ends
Step(c) == /\ p.st \notin {"good", "err"} /\ Len(hist) < base + MaxLen /\ UNCHANGED base
           /\ p' = Byte(p, c) /\ prev' = c /\ hist' = Append(hist, c)
           /\ p2' = IF c = LF /\ prev # CR /\ p.st \notin {"len", "chunk"} THEN Byte(Byte(p2, CR), LF) ELSE Byte(p2, c)
Next == \E c \in Bytes : Step(c)
Spec == Init /\ [][Next]_vars
Ctrl == IF p.st = "err" THEN <<"err", hist>>
        ELSE CASE Kind \in {"req", "resp"} -> <<p.st, p.cms, p.tok = <<>>, p.f.maj, p.f.min > 9, p.f.chunked, p.f.ka>>
               [] Kind = "chunked" -> <<p.st, IF p.nd \in {0, 1, 15, 16} THEN p.nd ELSE 2, IF p.left > 2 THEN 3 ELSE p.left, p.hn > 30, p.tn > 30>>
               [] Kind = "frame" -> <<p.st, p.need, p.masked, p.fin, p.op >= 8, p.left, Len(p.body)>>
view == IF Mode = "cover" THEN Ctrl ELSE <<p, p2, prev, Len(hist)>>
\* a lone LF means the same as CRLF, except where the text itself is kept (none) or a limit is hit
Strip(q) == IF q.st = "err" THEN q ELSE IF Kind = "chunked" THEN <<q.st, q.left, q.nd, q.body>> ELSE <<q.st, q.tok, q.name, q.cms, q.f>>
LfSame == Mode = "lf" => Strip(p) = Strip(p2)
Script == PrintT(ToJson(hist'))
=============================================================================
