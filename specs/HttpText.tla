------------------------------ MODULE HttpText ------------------------------
(* Query strings, cookies, URIs, percent encoding (C20), declaratively.       *)
EXTENDS HttpGram
\* pieces of s between separators c
Split(s, c) ==
  LET r == FoldLeft(LAMBDA a, x : IF x = c THEN <<Append(a[1], a[2]), <<>>>> ELSE <<a[1], Append(a[2], x)>>, <<<<>>, <<>>>>, s)
  IN Append(r[1], r[2])
Find(s, c) == IF \E i \in DOMAIN s : s[i] = c THEN CHOOSE i \in DOMAIN s : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c ELSE 0
\* percent decoding.  greedy: an invalid escape %x or %hx is kept as a whole; otherwise only its % is
RECURSIVE Decode(_, _, _)
Decode(s, plus, greedy) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] # 37 THEN <<IF plus /\ s[1] = 43 THEN 32 ELSE s[1]>> \o Decode(Tail(s), plus, greedy)
  ELSE IF Len(s) >= 3 /\ Hex(s[2]) >= 0 /\ Hex(s[3]) >= 0 THEN <<Hex(s[2]) * 16 + Hex(s[3])>> \o Decode(SubSeq(s, 4, Len(s)), plus, greedy)
  ELSE IF ~greedy THEN <<37>> \o Decode(Tail(s), plus, greedy)
  ELSE LET k == IF Len(s) >= 3 /\ Hex(s[2]) >= 0 THEN 3 ELSE IF Len(s) >= 2 THEN 2 ELSE 1 IN SubSeq(s, 1, k) \o Decode(SubSeq(s, k + 1, Len(s)), plus, greedy)
\* got: set (as a sequence) of pairs
AsMap(pairs) ==    \* last wins
  LET ks == {pairs[i][1] : i \in DOMAIN pairs} IN
  {<<k, pairs[CHOOSE i \in DOMAIN pairs : pairs[i][1] = k /\ \A j \in (i + 1)..Len(pairs) : pairs[j][1] # k][2]>> : k \in ks}
QueryPairs(s, greedy) ==
  LET Pair(x) == LET i == Find(x, 61) IN IF i = 0 THEN <<Decode(x, TRUE, greedy), <<>>>> ELSE <<Decode(SubSeq(x, 1, i - 1), TRUE, greedy), Decode(SubSeq(x, i + 1, Len(x)), TRUE, greedy)>>
      ps == SelectSeq(Split(s, 38), LAMBDA x : x # <<>>)
  IN [i \in DOMAIN ps |-> Pair(ps[i])]
QueryOK(s, got) == LET g == {got[i] : i \in DOMAIN got} IN
  /\ Cardinality(g) = Len(got) /\ g \in {AsMap(QueryPairs(s, TRUE)), AsMap(QueryPairs(s, FALSE))}
CookiePairs(s) ==
  LET Pair(x) == LET i == Find(x, 61) IN IF i = 0 THEN <<TrimR(x), <<>>>> ELSE <<TrimR(SubSeq(x, 1, i - 1)), TrimR(TrimL(SubSeq(x, i + 1, Len(x))))>>
      all == Split(s, 59)
      ps == SelectSeq([i \in DOMAIN all |-> TrimL(all[i])], LAMBDA x : x # <<>>)
  IN [i \in DOMAIN ps |-> Pair(ps[i])]
CookieOK(s, got) == LET g == {got[i] : i \in DOMAIN got} IN Cardinality(g) = Len(got) /\ g = AsMap(CookiePairs(s))
\* scheme://[user[:pass]@]host[:port][/path][?query]
Colon == 58
Slash == 47
UriParts(s) ==
  LET c == Find(s, Colon)
      ok == c > 0 /\ Len(s) >= c + 2 /\ s[c + 1] = Slash /\ s[c + 2] = Slash
      rest == IF ok THEN SubSeq(s, c + 3, Len(s)) ELSE <<>>
      sl == Find(rest, Slash)
      auth == IF sl = 0 THEN rest ELSE SubSeq(rest, 1, sl - 1)
      tail == IF sl = 0 THEN <<>> ELSE SubSeq(rest, sl + 1, Len(rest))
      q == Find(tail, 63)
      path == IF q = 0 THEN tail ELSE SubSeq(tail, 1, q - 1)
      at == Find(auth, 64)
      hp == IF at = 0 THEN auth ELSE SubSeq(auth, at + 1, Len(auth))
      pc == Find(hp, Colon)
  IN [ok |-> ok, scheme |-> IF c = 0 THEN <<>> ELSE SubSeq(s, 1, c - 1), auth |-> auth, path |-> path,
      query |-> IF q = 0 THEN <<>> ELSE SubSeq(tail, q + 1, Len(tail)),
      ats |-> Cardinality({i \in DOMAIN auth : auth[i] = 64}),
      user |-> IF at = 0 THEN <<>> ELSE SubSeq(auth, 1, at - 1),
      host |-> IF pc = 0 THEN hp ELSE SubSeq(hp, 1, pc - 1), port |-> IF pc = 0 THEN <<>> ELSE SubSeq(hp, pc + 1, Len(hp))]
Dot == 46
\* dot segments are removed after decoding; going above the root is a no-op
RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN <<>> ELSE <<Slash>> \o Head(cs) \o Join(Tail(cs))
Normal(path, greedy) ==
  LET raw == Split(path, Slash)
      cs == [i \in DOMAIN raw |-> Decode(raw[i], FALSE, greedy)]
      n == Len(cs)
      body == FoldLeft(LAMBDA a, x : IF x = <<Dot, Dot>> THEN (IF a = <<>> THEN a ELSE SubSeq(a, 1, Len(a) - 1)) ELSE IF x = <<Dot>> THEN a ELSE Append(a, x), <<>>, SubSeq(cs, 1, n - 1))
      last == cs[n]
      base == IF last = <<Dot, Dot>> THEN (IF body = <<>> THEN body ELSE SubSeq(body, 1, Len(body) - 1)) ELSE body
  IN Join(Append(base, IF last \in {<<Dot>>, <<Dot, Dot>>} THEN <<>> ELSE last))
UriOK(s, ok, u) ==
  LET p == UriParts(s) IN
  \/ 63 \in {p.auth[i] : i \in DOMAIN p.auth}                        \* '?' before the first '/': not claimed
  \/ /\ ok = (p.ok /\ p.ats <= 1)
     /\ ok => /\ u[1] = p.scheme /\ u[3] = p.host /\ u[4] = p.port /\ u[6] = p.query
              /\ u[2] \in {Decode(p.user, FALSE, TRUE), Decode(p.user, FALSE, FALSE)}
              /\ u[5] \in {Normal(p.path, TRUE), Normal(p.path, FALSE)}
\* encoded text: the original comes back; no separator left in it
Reserved == {33, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 47, 58, 59, 61, 63, 64, 91, 93}
Unsafe(c, path) == (c \in Reserved /\ ~(path /\ c = Slash)) \/ c <= 32 \/ c >= 127
EncOK(s, path, enc, dec) ==
  /\ dec = s /\ Decode(enc, FALSE, FALSE) = s
  /\ \A i \in DOMAIN enc : ~Unsafe(enc[i], path) \/ enc[i] = 37
  /\ path => Len(SelectSeq(enc, LAMBDA c : c = Slash)) = Len(SelectSeq(s, LAMBDA c : c = Slash))    \* still separates
DecOK(s, d) == d \in {Decode(s, FALSE, TRUE), Decode(s, FALSE, FALSE)}
SetUriOK(uri, path, query, back) ==
  LET q == Find(uri, 63) IN
  /\ path = (IF q = 0 THEN uri ELSE SubSeq(uri, 1, q - 1))
  /\ query = (IF q = 0 THEN <<>> ELSE SubSeq(uri, q + 1, Len(uri)))
  /\ back = uri \/ (q = Len(uri) /\ back = path)
\* parameters of a request: its query, then, unless it is a GET, a form in its body
T_GET == <<71, 69, 84>>
T_form == <<97,112,112,108,105,99,97,116,105,111,110,47,120,45,119,119,119,45,102,111,114,109,45,117,114,108,101,110,99,111,100,101,100>>
T_cookie == <<99,111,111,107,105,101>>
ParamsOK(method, mime, query, body, got) ==
  LET form == method # T_GET /\ mime = T_form
      Both(w) == QueryPairs(query, w) \o (IF form THEN QueryPairs(body, w) ELSE <<>>)
      m == {got[i] : i \in DOMAIN got}
  IN Cardinality(m) = Len(got) /\ \E g \in {TRUE, FALSE} : m = AsMap(Both(g))
\* cookies of a request: of all its cookie headers in order
CookiesOK(hs, got) ==
  LET all == FoldLeft(LAMBDA a, h : IF h[1] = T_cookie THEN a \o CookiePairs(h[2]) ELSE a, <<>>, hs)
      m == {got[i] : i \in DOMAIN got}
  IN Cardinality(m) = Len(got) /\ m = AsMap(all)
CTypeOK(v, mime, suffix) == LET f == ContentType([mime |-> <<>>, suffix |-> <<>>], v) IN mime = f.mime /\ suffix = f.suffix
\* "Basic" followed by a blank
AuthOK(v, ok, a) == LET f == Basic([auth |-> <<>>], v) IN
  /\ ok = (Len(v) >= 6 /\ Lower(SubSeq(v, 1, 5)) = T_basic /\ Blank(v[6]))
  /\ ok => a = f.auth
=============================================================================
