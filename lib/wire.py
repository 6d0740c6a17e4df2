"""Strict decoders of what a peer sees on the wire: HTTP responses / requests, web socket frames."""
import base64, hashlib, re

STATUS = re.compile(rb'HTTP/(\d)\.(\d) (\d{3})(?: [^\r\n]*)?\Z')
REQLINE = re.compile(rb'([A-Z]+) ([^ \r\n]+) HTTP/(\d)\.(\d)\Z')
HEADER = re.compile(rb'([!#$%&\'*+.^_`|~0-9A-Za-z-]+): ?([^\r\n]*)\Z')


class Garbage(Exception):
    pass


def accept_of(key):
    return base64.b64encode(hashlib.sha1(key + b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11').digest())


def pattern(i, frm, n):
    return bytes(97 + (i * 7 + frm + j) % 26 for j in range(n))


def head(buf, first):
    """(start line match, headers, rest) or None if incomplete."""
    p = buf.find(b'\r\n\r\n')
    if p < 0:
        if len(buf) > 5000:
            raise Garbage('long header')
        return None
    lines = buf[:p].split(b'\r\n')
    m = first.match(lines[0])
    if not m:
        raise Garbage('start line %r' % lines[0])
    hs = []
    for l in lines[1:]:
        h = HEADER.match(l)
        if not h:
            raise Garbage('header %r' % l)
        hs.append((h.group(1).lower(), h.group(2)))
    return m, hs, buf[p + 4:]


def get(hs, n):
    v = [x for k, x in hs if k == n]
    if len(v) > 1:
        raise Garbage('double %r' % n)
    return v[0] if v else None


def body(hs, rest, nobody=False):
    """(complete, body so far, rest)"""
    cl, te = get(hs, b'content-length'), get(hs, b'transfer-encoding')
    if nobody:
        return True, b'', rest
    if te is not None:
        if te.lower() != b'chunked' or cl is not None:
            raise Garbage('transfer-encoding %r %r' % (te, cl))
        got = b''
        while True:
            p = rest.find(b'\r\n')
            if p < 0:
                return False, got, rest
            if not re.match(rb'[0-9a-fA-F]+\Z', rest[:p]):
                raise Garbage('chunk size %r' % rest[:p])
            n = int(rest[:p], 16)
            if n == 0:
                if len(rest) < p + 4:
                    return False, got, rest
                if rest[p + 2:p + 4] != b'\r\n':
                    raise Garbage('last chunk')
                return True, got, rest[p + 4:]
            if len(rest) < p + 2 + n + 2:
                return False, got + rest[p + 2:p + 2 + n], rest
            if rest[p + 2 + n:p + 4 + n] != b'\r\n':
                raise Garbage('chunk end')
            got += rest[p + 2:p + 2 + n]
            rest = rest[p + 4 + n:]
    if cl is None or not re.match(rb'\d+\Z', cl):
        raise Garbage('no length')
    n = int(cl)
    return len(rest) >= n, rest[:n], rest[n:]


def keep(ver, hs):
    c = (get(hs, b'connection') or b'').lower()
    toks = [x.strip() for x in c.split(b',')]
    return int(b'close' not in toks) if ver >= 11 else int(b'keep-alive' in toks)


def frame(buf):
    """(fin, opcode, masked, minimal, payload, rest) or None"""
    if len(buf) < 2:
        return None
    b0, b1 = buf[0], buf[1]
    if b0 & 0x70:
        raise Garbage('reserved bits')
    n, p, mini = b1 & 127, 2, True
    if n == 126:
        if len(buf) < 4:
            return None
        n, p = int.from_bytes(buf[2:4], 'big'), 4
        mini = n > 125
    elif n == 127:
        if len(buf) < 10:
            return None
        n, p = int.from_bytes(buf[2:10], 'big'), 10
        mini = n > 65535
    key = None
    if b1 & 128:
        if len(buf) < p + 4:
            return None
        key = buf[p:p + 4]
        p += 4
    if len(buf) < p + n:
        return None
    pl = buf[p:p + n]
    if key:
        pl = bytes(x ^ key[i % 4] for i, x in enumerate(pl))
    return b0 >> 7, b0 & 15, bool(b1 & 128), mini, pl, buf[p + n:]


def mkframe(fin, op, payload, key=None, rsv=0, length=None, long=0):
    n = len(payload) if length is None else length
    b = bytes([(fin << 7) | (rsv << 4) | op])
    m = 128 if key is not None else 0
    if long == 2 or (long == 0 and n > 65535):
        b += bytes([m | 127]) + n.to_bytes(8, 'big')
    elif long == 1 or n > 125:
        b += bytes([m | 126]) + n.to_bytes(2, 'big')
    else:
        b += bytes([m | n])
    if key is not None:
        b += key
        payload = bytes(x ^ key[i % 4] for i, x in enumerate(payload))
    return b + payload


class ServerWire:
    """Bytes a server sent on one connection -> events."""
    def __init__(self, k):
        self.k, self.buf, self.ws, self.dead, self.dates = k, b'', False, False, {}

    def feed(self, data, now):
        self.buf += data
        ev = []
        try:
            while self.buf and not self.dead:
                if self.ws:
                    f = frame(self.buf)
                    if f is None:
                        break
                    self.buf = f[5]
                    ev.append(['wf', self.k, f[0], f[1], f[2], f[3], list(f[4]), now])
                    continue
                h = head(self.buf, STATUS)
                if h is None:
                    break
                m, hs, rest = h
                ver, st = int(m.group(1)) * 10 + int(m.group(2)), int(m.group(3))
                if get(hs, b'date') is None or get(hs, b'server') is None:
                    if st != 101:
                        raise Garbage('no date or server')
                done, b, rest = body(hs, rest, st == 101)
                x, ok = get(hs, b'x-id'), True
                n = len(b)
                if st == 101:
                    self.ws = True
                    ids = [i for i in range(200) if accept_of(b'key%d' % i) == get(hs, b'sec-websocket-accept')]
                    i = ids[0] if ids else -1
                    ok = (get(hs, b'upgrade') or b'').lower() == b'websocket' and b'upgrade' in (get(hs, b'connection') or b'').lower()
                elif x is not None:
                    i = int(x)
                    ok = b == pattern(i, 0, n)
                elif st == 401:
                    mm = re.match(rb'Basic realm="boom(\d+)"', get(hs, b'www-authenticate') or b'')
                    i, ok = (int(mm.group(1)) if mm else -1), n == 0
                else:
                    mm = re.match(rb'boom(\d+)\Z', b)
                    i, n = (int(mm.group(1)) if mm else 0), 0
                if not ok and done:
                    raise Garbage('body')
                if st != 101 and i > 0 and (done or x is not None) and get(hs, b'date') != self.dates.get(i):
                    raise Garbage('date')
                if not done:
                    if x is not None:
                        ev.append(['wp', self.k, i, st, n])
                    break
                self.buf = rest
                ev.append(['wr', self.k, i, st, ver, keep(ver, hs), n, True, now])
        except Garbage as g:
            self.dead = True
            ev.append(['garbage', self.k, str(g)])
        return ev


def shorten(x):
    """Long bodies are compared by length and digest (as text, so that validity is kept for TLC)."""
    if isinstance(x, list):
        if len(x) > 20000 and isinstance(x[0], int):
            return list(b'%d:' % len(x) + hashlib.md5(bytes(x)).hexdigest().encode())
        return [shorten(y) for y in x]
    return x


def server_events(ev):
    ws, out = {}, []
    for e in ev:
        if e[0] == 'wire':
            out += ws.setdefault(e[1], ServerWire(e[1])).feed(bytes(e[2]), e[3])
        elif e[0] == 'dated':
            ws.setdefault(e[1], ServerWire(e[1])).dates[e[2]] = bytes(e[3])
        else:
            out.append(e)
    return [shorten(e) for e in out]


class ClientWire:
    """Bytes a client sent on one connection -> events."""
    def __init__(self, k):
        self.k, self.buf, self.ws, self.dead = k, b'', False, False

    def feed(self, data, now):
        self.buf += data
        ev = []
        try:
            while self.buf and not self.dead:
                if self.ws:
                    f = frame(self.buf)
                    if f is None:
                        break
                    self.buf = f[5]
                    ev.append(['wf', self.k, f[0], f[1], f[2], f[3], list(f[4]), now])
                    continue
                h = head(self.buf, REQLINE)
                if h is None:
                    break
                m, hs, rest = h
                ver = int(m.group(3)) * 10 + int(m.group(4))
                host = (get(hs, b'host') or b'').decode('latin1')
                i = int(get(hs, b'x-id') or -1)
                up = (get(hs, b'upgrade') or b'').lower() == b'websocket'
                nobody = get(hs, b'content-length') is None and get(hs, b'transfer-encoding') is None
                done, b, rest = body(hs, rest, nobody)
                if not done:
                    break
                self.buf = rest
                if up:
                    key = get(hs, b'sec-websocket-key') or b''
                    try:
                        n = len(base64.b64decode(key, validate=True))
                    except ValueError:
                        n = -1
                    ok = (n == 16 and m.group(2) == b'/u%d' % i and get(hs, b'sec-websocket-version') == b'13' and ver == 11 and m.group(1) == b'GET'
                          and b'upgrade' in (get(hs, b'connection') or b'').lower())
                    self.ws = True
                    ev.append(['wu', self.k, i, host, ok])
                else:
                    want = get(hs, b'x-want') or b''
                    auth = b'Basic ' + base64.b64encode(b'me@x:p%d' % i) if b'user' in want else None
                    ok = (b == pattern(i, 0, len(b)) and (m.group(1) == b'GET') == nobody and (None if get(hs, b'authorization') is None else b'Basic' + get(hs, b'authorization')[5:] if get(hs, b'authorization')[:6].lower() == b'basic ' else b'?') == auth
                          and m.group(2) == b'/r%d' % i + (b'?q=%d&r=%%20+' % i if b'query' in want else b''))
                    ev.append(['wq', self.k, i, host, ver, keep(ver, hs), len(b), ok])
        except Garbage as g:
            self.dead = True
            ev.append(['garbage', self.k, str(g)])
        return ev


def client_events(ev):
    ws, out = {}, []
    for e in ev:
        if e[0] == 'wire':
            out += ws.setdefault(e[1], ClientWire(e[1])).feed(bytes(e[2]), e[3])
        else:
            out.append(e)
    return [shorten(e) for e in out]
