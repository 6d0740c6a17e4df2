"""HTTP and web socket parsers (C11), query/cookie/URI decoding (C20), header round trip (C21)."""

GROUP = 8


def hx(b):
    if isinstance(b, str):
        b = b.encode('latin1')
    return bytes(b).hex()


def group(ops, n=GROUP):
    return [' '.join(ops[i:i + n]) for i in range(0, len(ops), n)]


def ws(r):
    return r.choice(['', '', ' ', ' ', '  ', '\t', ' \t '])


def nl(r):
    return '\r\n' if r.random() < .85 else '\n'


def case(r, s):
    k = r.random()
    return s if k < .6 else s.upper() if k < .7 else s.title() if k < .85 else ''.join(r.choice([x.upper(), x.lower()]) for x in s)


def word(r, n=6, extra=''):
    return ''.join(r.choice('abcXYZ019-_.!~*' + extra) for _ in range(r.randrange(1, n)))


CODINGS = ['chunked', 'gzip', 'identity', 'deflate', 'br', 'Chunked', '']
NUMS = ['0', '1', '5', '10', '007', '', '+3', '-1', '3x', '0x10', '18446744073709551615', '18446744073709551616', '99999999999999999999', '1 2', '00']


def header(r):
    k = r.randrange(14)
    if k < 3:
        n, v = word(r), r.choice(['', 'v', 'a b', 'x, y', 'a:b', 'caf\xe9', word(r, 20)])
    elif k == 3:
        n, v = 'content-length', r.choice(NUMS)
    elif k == 4:
        n, v = 'transfer-encoding', ','.join(ws(r) + r.choice(CODINGS) + ws(r) for _ in range(r.choice([1, 1, 2, 3])))
    elif k == 5:
        n, v = 'connection', ','.join(ws(r) + case(r, r.choice(['keep-alive', 'close', 'upgrade', '', 'te'] if r.random() < .3 else ['keep-alive', 'close', 'upgrade'])) + ws(r) for _ in range(r.choice([1, 1, 2])))
    elif k == 6:
        n, v = 'upgrade', case(r, r.choice(['websocket', 'websocket', 'h2c']))
    elif k == 7:
        n, v = 'content-type', r.choice(['text/html', 'Text/HTML; charset=utf-8', 'a/b;q', 'a/b ; q ', '', ';', ' ;x', 'application/JSON  x'])
    elif k == 8:
        n, v = 'authorization', r.choice(['Basic dTpw', 'basic\tdTpw', 'BASIC   x y', 'Basic', 'Bearer zzz', 'Basicx', 'basi dTpw', 'Basic '])
    elif k == 9:
        n, v = 'host', r.choice(['example.org', 'example.org:80', ''])
    elif k == 10:
        n, v = r.choice(['origin', 'date', 'server']), word(r, 12, ' /:')
    elif k == 11:
        n, v = r.choice(['sec-websocket-key', 'sec-websocket-version', 'sec-websocket-accept']), r.choice(['13', 'dGhlIHNhbXBsZQ==', ''])
    elif k == 12:
        n, v = 'x-' + word(r), word(r, 9) + nl(r) + r.choice([' ', '\t', '  ']) + word(r, 9)
    else:
        n, v = r.choice(['connection', 'transfer-encoding']), r.choice(['keep-alive,' + nl(r) + ' close', 'gzip,\r\n\tchunked', 'upg\r\n rade', ',,'])
    return case(r, n) + r.choice(['', '', '', ' ', '\t']) + ':' + ws(r) + v + ws(r) + nl(r)


def head(r, kind):
    if kind == 'req':
        s = r.choice(['', '', '', '\r\n', '\n', '\r\n\n\r\n'])
        path = r.choice(['/', '/', '*', '/a/b.html', '/%41%2f%7e', '/a%', '/%zz', '/a b', '/\xe9', '/' + word(r, 12, '/'), 'http://h/p'])
        q = r.choice(['', '', '?', '?a=b&c=%20', '?x?y', '?a#b', '#frag', '#f?g'])
        s += case(r, r.choice(['GET', 'POST', 'M-SEARCH', 'g'])) + r.choice([' ', ' ', '\t', '  ']) + path + q + r.choice([' ', ' ', '  ', '\t'])
        s += r.choice(['HTTP/1.1'] * 6 + ['HTTP/1.0', 'HTTP/0.9', 'HTTP/2.0', 'HTTP/01.1', 'HTTP/1.01', 'HTTP/1.99', 'HTTP/1.100', 'http/1.1', 'HTTP/1', 'HTTP/11.1', 'HTTP/9.1'])
        s += r.choice(['', '', '', ' ']) + nl(r)
    else:
        s = r.choice(['HTTP/1.1'] * 5 + ['HTTP/1.0', 'HTTP/0.9', 'HTTP/2.0', 'HTTP/1.2', 'HTTP/12.1', 'HTTP/1.100'])
        s += r.choice([' ', ' ', '\t', '  ']) + r.choice(['200', '404', '101', '999', '000', '20', '2000', 'abc'] if r.random() < .3 else ['200', '404', '101'])
        s += r.choice(['', ' ', ' OK', '  Not  Found  ', ' caf\xe9', '\tOK']) + nl(r)
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        s += header(r)
    s += nl(r)
    s += r.choice(['', '', 'body', 'GET / HTTP/1.1\r\n\r\n', '\r\n'])
    return s


def mutate(r, s):
    b = bytearray(s.encode('latin1'))
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(5)
        p = r.randrange(len(b) + 1)
        if k == 0 and b:
            del b[p - 1]
        elif k == 1:
            b.insert(p, r.choice([0, 9, 10, 13, 32, 35, 37, 44, 58, 59, 63, 65, 127, 128, 255, r.randrange(256)]))
        elif k == 2 and b:
            b[p - 1] = r.randrange(256)
        elif k == 3:
            b = b[:p]
        elif b:
            q = min(len(b), p + r.randrange(1, 8))
            b[p:p] = b[p:q]
    return bytes(b)


def body(r):
    if r.random() < .25:
        n = r.choice([0, 1, 2, 5, 17, 300])
        return '%s,0,100,100,%s' % (r.choice([str(n)] * 3 + ['', '18446744073709551615']), hx(bytes(r.randrange(256) for _ in range(max(0, n + r.choice([-1, 0, 0, 3]))))))
    s = b''
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        n = r.choice([1, 1, 2, 3, 9, 10, 15, 16, 17, 26, 255, 260])
        d = bytes(r.randrange(256) for _ in range(n)) if r.random() < .5 else b'x' * n
        sz = r.choice(['%x', '%X', '0%x', '000%x', ' %x', '\t %x']) % n
        s += (sz + r.choice(['', '', ' ', ';a=b', ' ; x', ';', '\t']) + nl(r)).encode() + d + (r.choice(['', '', '', ' ', '  \t']) + nl(r)).encode()
    s += (r.choice(['0', '00', '0;x', '0 ', '0' * 30]) + nl(r)).encode()
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        s += ('tr' + word(r) + ': ' + word(r, 12) + nl(r)).encode()
    s += nl(r).encode() + r.choice([b'', b'', b'rest'])
    if r.random() < .4:
        s = mutate(r, s.decode('latin1'))
    k = r.random()
    mh, mt = (4096, 8192) if k < .6 else (r.randrange(0, 12), r.randrange(0, 12))
    return '%s,1,%d,%d,%s' % (r.choice(['', '', '5']), mh, mt, hx(s))


def frame(r):
    op = r.choice([0, 1, 2, 8, 9, 10, 1, 2] + ([3, 7, 11, 15] if r.random() < .2 else []))
    n = r.choice([0, 1, 2, 3, 4, 5, 8, 124, 125] if op >= 8 and r.random() < .8 else [0, 1, 3, 4, 5, 7, 9, 125, 126, 127, 200, 300, 1025])
    fin = 1 if r.random() < (.9 if op >= 8 else .6) else 0
    m = r.random() < .6
    b = bytes([(fin << 7) | (r.choice([0, 0, 0, 0, 0, 0, 1, 4]) << 4) | op])
    k = r.random()
    enc = 0 if n < 126 else 126
    if k < .15: enc = 126
    elif k < .25: enc = 127
    ln = n + (r.choice([-1, 0, 0, 1]) if n and r.random() < .15 else 0)
    b += bytes([(m << 7) | (enc or n)])
    if enc == 126: b += ln.to_bytes(2, 'big')
    if enc == 127: b += (ln if r.random() < .8 else r.choice([1 << 63, (1 << 64) - 1, 1 << 32, 65536])).to_bytes(8, 'big')
    if m: b += bytes(r.randrange(256) for _ in range(4))
    b += bytes(r.randrange(256) for _ in range(n)) + r.choice([b'', b'', b'\x81'])
    if r.random() < .1: b = b[:r.randrange(len(b) + 1)]
    return 'frame,' + hx(b)


ENDS = {'req': [[], [10], [13, 10, 13, 10], list(b'b: c\n\n'), list(b' HTTP/1.1\r\n\r\n'), list(b'\nx:y\r\n z\r\n\r\nrest')],
        'resp': [[], [10], [13, 10, 13, 10], list(b' 200 OK\r\n\r\n'), list(b'\nb: c\n\n')],
        'chunked': [[], [10, 10], [13, 10, 13, 10], list(b'aa\r\n0\r\n\r\n'), list(b'\n0\n\n')],
        'frame': [[], [0] * 8, [1, 2, 3, 4, 5, 6, 7, 8, 9]]}


def C11(c):
    exe = c.build(['drv_http_parse'])['drv_http_parse']
    for k in ('req', 'resp', 'chunked'):
        c.model('HttpGramImpl', 'HttpGram_lf_%s.cfg' % k)
    ops = []
    for k in ('req', 'resp', 'chunked', 'frame'):
        hs = c.scripts_from_model('HttpGramImpl', 'HttpGram_%s.cfg' % k, limit=c.q(4000, None))
        for h in hs:
            for e in (ENDS[k] if c.thorough else [[], c.rnd.choice(ENDS[k])]):
                x = hx(list(h) + e)
                ops.append('frame,' + x if k == 'frame' else 'body,,1,30,30,' + x if k == 'chunked' else 'head,%s,200,%s' % (k, x))
    r = c.rnd
    for _ in range(c.q(2500, 40000)):
        k = r.choice(['req', 'req', 'resp'])
        s = head(r, k)
        b = mutate(r, s) if r.random() < .45 else s.encode('latin1')
        lim = 8192 if r.random() < .8 else max(0, len(b) + r.choice([-3, -2, -1, 0, 1, -10]))
        ops.append('head,%s,%d,%s' % (k, lim, hx(b)))
    ops += ['body,' + body(r) for _ in range(c.q(1500, 20000))]
    ops += [frame(r) for _ in range(c.q(1500, 20000))]
    # numbers at the edges of their range; every pair of values of a header given twice
    for d in '0123789aAfF':
        for n in (1, 14, 15, 16, 17, 18):
            for f in '0f8':
                ops.append('body,,1,100,100,' + hx(d + f * (n - 1) + '\r\nab'))
                ops.append('body,,1,100,100,' + hx('000' + d + f * (n - 1) + ';\nab'))
    for k, l in (('req', 'GET / HTTP/1.1\r\n'), ('resp', 'HTTP/1.1 200 OK\r\n')):
        for n, vs in (('Content-Length', NUMS), ('Transfer-Encoding', CODINGS), ('connection', ['keep-alive', 'close', 'Upgrade', 'x', '']),
                      ('content-type', ['a/B', 'c;d', '']), ('host', ['a', 'b', '']), ('authorization', ['Basic x', 'basic y', 'other', 'basicz']), ('upgrade', ['websocket', 'x']),
                      ('date', ['a', 'b']), ('server', ['a', '']), ('origin', ['a', 'b']), ('sec-websocket-accept', ['a', '']), ('sec-websocket-key', ['a', 'b'])):
            for a in vs:
                ops.append('head,%s,8192,%s' % (k, hx(l + n + ': ' + a + '\r\n\r\n')))
                for b in vs:
                    ops.append('head,%s,8192,%s' % (k, hx(l + n + ': ' + a + '\r\n' + n + ':' + b + '\r\n\r\n')))
                    ops.append('head,%s,8192,%s' % (k, hx(l + n + ':' + a + ', ' + b + '\n\n')))
    # the default limit
    for n in (8188, 8189, 8190, 8191, 8192, 8193):
        s = 'GET / HTTP/1.1\r\na: \r\n\r\n'
        ops.append('head,req,8192,' + hx(s[:19] + 'x' * (n - len(s)) + s[19:]))
    ops = list(dict.fromkeys(ops))
    r.shuffle(ops)
    c.conform('drv_http_parse', exe, 'HttpGramTrace', group(ops))


QCH = 'ab=&%+2fFgG0 \xe9/;~'


def qstr(r):
    if r.random() < .5:
        return ''.join(r.choice(QCH) for _ in range(r.randrange(0, 14)))
    return '&'.join(r.choice(['a', 'b', '', 'k%20', '%41', '%', '%2', '%g1', 'a+b', 'a%3Db']) + r.choice(['', '=', '=v', '=%3d%26', '=1=2', '=a+b', '=%', '=%4', '=%zz', '=%%41', '=%4%41']) for _ in range(r.randrange(1, 5)))


def cstr(r):
    if r.random() < .5:
        return ''.join(r.choice('ab=; \t,"%') for _ in range(r.randrange(0, 14)))
    return r.choice(['; ', ';', ' ; ', ';;', ';\t']).join(r.choice(['a', 'b', '', ' n', 'k k ', 'a']) + r.choice(['', '=', '=v', '= v ', '=1=2', '="q"', '=a b']) for _ in range(r.randrange(1, 5)))


def ustr(r):
    k = r.random()
    if k < .25:
        return ''.join(r.choice('ah:/@?.%2eE#') for _ in range(r.randrange(0, 16)))
    seg = lambda: r.choice(['a', 'b', 'c d', '.', '..', '', '...', '%2e', '%2E%2e', '.%2e', 'a%2fb', '%', '%4', '%zz', '%41', '..a', 'x.'])
    s = r.choice(['http', 'https', 'ws', 'h+x.1', '']) + r.choice(['://'] * 9 + [':/', ':', '//', ':///'])
    s += r.choice(['', '', '', 'user@', 'u:p@', 'u%40:p@', '@', 'a@b@', ':@', '%@', '%4@', '%zz@'])
    s += r.choice(['host', 'example.org', '127.0.0.1', '', 'h']) + r.choice(['', '', ':80', ':', ':8:9', ':x'])
    s += ''.join('/' + seg() for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])))
    s += r.choice(['', '', '?', '?a=b', '?a?b', '?/..', '?%41', '?a#b', '?a/../b'])
    return s


def C20(c):
    exe = c.build(['drv_http_parse'])['drv_http_parse']
    r = c.rnd
    ops = []
    # all short strings over the interesting characters
    import itertools
    for n in range(0, c.q(5, 6)):
        for t in itertools.product('a=&%4', repeat=n):
            ops.append('query,' + hx(''.join(t)))
    for n in range(0, c.q(6, 8)):
        for t in itertools.product('a=; ', repeat=n):
            ops.append('cookie,' + hx(''.join(t)))
    for n in range(0, c.q(6, 8)):
        for t in itertools.product('/.a?', repeat=n):
            ops.append('uri,' + hx('s://h/' + ''.join(t)))
    for n in range(0, c.q(5, 7)):
        for t in itertools.product(':/@h?', repeat=n):
            ops.append('uri,' + hx('s://' + ''.join(t)))
            if n < 5: ops.append('uri,' + hx('s' + ''.join(t)))
    for _ in range(c.q(2000, 40000)):
        ops.append('query,' + hx(qstr(r)))
        ops.append('cookie,' + hx(cstr(r)))
        ops.append('uri,' + hx(ustr(r)))
        ops.append('seturi,' + hx(r.choice(['', '/', '/a', '/a?b', '?', '/a?', '/a?b?c', '/' + qstr(r), '/' + ustr(r)])))
    form = 'application/x-www-form-urlencoded'
    for _ in range(c.q(1200, 20000)):
        ops.append('params,' + ','.join(hx(x) for x in (r.choice(['GET', 'POST', 'PUT', 'HEAD', 'get', '']), r.choice([form, form, form, 'text/plain', '', form + '2']), r.choice(['', qstr(r), qstr(r)]), r.choice(['', qstr(r), qstr(r)]))))
        ops.append('cookies,' + ';'.join(hx(x) for _ in range(r.randrange(0, 4)) for x in (r.choice(['cookie', 'cookie', 'cookie', 'x-cookie', 'set-cookie']), cstr(r) or 'a')))
    for b in range(256):
        ops += ['enc,%s,%d' % (hx(bytes([b])), p) for p in (0, 1)]
    for _ in range(c.q(500, 10000)):
        ops.append('enc,%s,%d' % (hx(bytes(r.randrange(256) for _ in range(r.randrange(0, 12)))), r.randrange(2)))
    ops = list(dict.fromkeys(ops))
    r.shuffle(ops)
    c.conform('drv_http_parse', exe, 'HttpGramTrace', group(ops, 20))


def vtext(r):   # a header value: no blanks at the ends, no control bytes
    return r.choice(['v', 'a b', 'x, y', 'caf\xe9', 'a:b;c', '', word(r, 30, ' ,:')]).strip()


def token(r, n=8):
    return word(r, n).lower()


def lst(xs):
    return ';'.join(hx(x) if x else '' for x in xs)


def common(r, resp):
    up = r.random() < .15
    maj, mn = r.choice([(1, 1)] * 5 + [(1, 0), (1, 0), (0, 9), (1, 2), (1, 12), (1, 99)])
    ka = r.random() < .7
    if up:
        maj, mn, ka = 1, 1, True
    cl = r.choice(['', '', '0', '1', '1234567890', '18446744073709551615'])
    ch = int(not cl and r.random() < .4)
    tes = [r.choice(['gzip', 'deflate', 'br', 'x-' + token(r)]) for _ in range(r.choice([0, 0, 0, 1, 2]))]
    mime = r.choice(['', 'text/html', 'application/json', 'a/b'])
    suf = r.choice(['', 'charset=utf-8', 'q', 'q=1; w="z z"']) if mime else ''
    hs = []
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        hs += [r.choice(['x-', 'set-', 'y']) + token(r), vtext(r)]
    return ','.join([str(maj), str(mn), str(int(ka)), cl, str(ch), lst(tes), str(int(up)), hx(mime), hx(suf), lst(hs)])


def C21(c):
    exe = c.build(['drv_http_parse'])['drv_http_parse']
    r = c.rnd
    ops = []
    for _ in range(c.q(4000, 60000)):
        if r.random() < .5:
            path = '/' + r.choice(['', 'index.html', 'a/b/c', word(r, 15, '/:@&=+$,;()'), 'caf\xe9'])
            q = r.choice(['', '', 'a=b', 'a=%20&b=%41', 'x?y=/z', word(r, 12, '=&%/?+')])
            f = [r.choice(['GET', 'POST', 'PUT', 'M-SEARCH', word(r, 8)]), path, q, r.choice(['', '', 'dTpw', 'a b']), r.choice(['', 'h', 'example.org:80']),
                 r.choice(['', 'http://x']), r.choice(['', 'dGhlIHNhbXBsZQ==']), r.choice(['', '13'])]
            ops.append('hreq,' + common(r, 0) + ',' + ','.join(hx(x) for x in f))
        else:
            st = r.choice([100, 101, 200, 200, 204, 206, 302, 304, 400, 401, 404, 416, 422, 500, 505, 599, 999])
            f = [hx(r.choice(['', '', 'OK', 'Very  odd text', 'caf\xe9'])), hx(r.choice(['', 's3pPLMBiTxaQ9kYGzzhZRbK+xOo='])),
                 hx(r.choice(['', 'Tue, 15 Nov 1994 08:12:31 GMT'])), hx(r.choice(['', 'crab', 'a/1.0 (b)']))]
            ops.append('hresp,' + common(r, 1) + ',%d,' % st + ','.join(f))
    for _ in range(c.q(300, 5000)):
        ops.append('seturi,' + hx(r.choice(['', '/', '/a', '/a?b', '?', '/a?', '/a?b?c', '/' + qstr(r), '/' + ustr(r)])))
    for _ in range(c.q(600, 8000)):
        ops.append('ctype,' + hx(r.choice(['', 'a/b', 'A/B', 'text/HTML', 'x']) + r.choice(['', ';', ' ;', '; ', ' ; ', ' ', '\t;\t']) + r.choice(['', 'q', 'charset=UTF-8', 'a; b', ';', ' x'])))
        ops.append('auth,' + hx(r.choice(['basic', 'Basic', 'BASIC', 'basi', 'basicc', 'casic', 'bbsic', 'batic', 'basjc', '']) + r.choice(['', ' ', '\t', '  ', 'x', ':']) + r.choice(['', 'd', 'dTpw', 'a b'])))
        ops.append('simple,%s,%d' % (r.choice(['html', 'text']), r.choice([100, 200, 201, 204, 304, 400, 401, 403, 404, 422, 500, 501, 502, 503, 599, 999])) + r.choice(['', ',' + hx(word(r, 20, ' <>&\r\n'))]))
        ops.append('simple,%s,%d,%s' % (r.choice(['a/b', 'text/css', 'text/plain;charset=utf-8', 'x/y;q']), r.choice([200, 404, 500]), hx(r.choice(['', 'x', word(r, 30, ' \r\n')]))))
    ops = list(dict.fromkeys(ops))
    c.conform('drv_http_parse', exe, 'HttpGramTrace', group(ops))
    # a path that needs percent encoding
    p = 'hreq,1,1,1,,0,,0,,,,' + ','.join(hx(x) for x in ['GET', '/a b', '', '', 'h', '', '', ''])
    c.conform('drv_http_parse', exe, 'HttpGramTrace', [p])
