"""HTTP server and its web sockets: C10, C12, C13 and C14 (server side)."""
import datetime
from a_loop import from_hist, join
from wire import mkframe, pattern, server_events


def hx(b):
    return bytes(b).hex()


def request(r, i, k, up=False):
    """(bytes, ver, ka, body length, may be upgraded)"""
    if up:
        miss = r.choice(['close', 'ver', 'key', 'con', 'post', 'old', 'nov', 'nocon', 'noupg']) if r.random() < .12 else ''
        h = ['Host: h%d' % k, 'Connection: ' + {'close': r.choice(['close, Upgrade', 'Upgrade, close']), 'con': 'keep-alive', 'old': 'keep-alive, Upgrade'}.get(miss, r.choice(['Upgrade', 'keep-alive, Upgrade'])),
             'Upgrade: ' + r.choice(['websocket', 'WebSocket']),
             'Sec-WebSocket-Version: ' + ('13' if miss != 'ver' else r.choice(['8', '12', '14', '130'])), 'Sec-WebSocket-Key: key%d' % i]
        h = [x for x in h if not x.startswith({'key': 'Sec-WebSocket-Key', 'nov': 'Sec-WebSocket-Version', 'nocon': 'Connection', 'noupg': 'Upgrade'}.get(miss, '?'))]
        r.shuffle(h)
        h = ['%s /r%d HTTP/1.%d' % ('POST' if miss == 'post' else 'GET', i, 0 if miss == 'old' else 1)] + h + (['Content-Length: 0'] if miss == 'post' else [])
        return ('\r\n'.join(h) + '\r\n\r\n').encode(), 10 if miss == 'old' else 11, int(miss != 'close'), 0, int(not miss)
    ver = r.choice([11, 11, 11, 10])
    ka = 1 if ver == 11 else 0
    h = ['Host: h%d' % k]
    x = r.random()
    if x < (.12 if ver == 11 else .2):
        h.append('Connection: close')
        ka = 0
    elif x < (.25 if ver == 11 else .8):
        h.append('Connection: keep-alive')
        ka = 1
    n = r.choice([0, 0, 0, 1, 5, 30]) if r.random() > .03 else r.choice([8191, 8192, 9000, 20000])
    b = pattern(i, 0, n)
    m = 'GET'
    if n or r.random() < .2:
        m = r.choice(['POST', 'PUT'])
        if ver == 11 and r.random() < .4:
            h.append('Transfer-Encoding: chunked')
            out, p = b'', 0
            while p < n:
                q = min(n - p, r.choice([1, 3, 16]))
                out += b'%x\r\n' % q + b[p:p + q] + b'\r\n'
                p += q
            b = out + b'0\r\n\r\n'
        else:
            h.append('Content-Length: %d' % n)
    r.shuffle(h)
    return ('%s /r%d HTTP/1.%d\r\n' % (m, i, ver - 10) + '\r\n'.join(h) + '\r\n\r\n').encode() + b, ver, ka, n, 0


BADHTTP = [b'GET / HTTP/1.1\r\nConnection: Upgrade\r\nUpgrade: h2c\r\n\r\n', b'\x70\x01', b'GET\x01', b'@ / HTTP/1.1\r\n\r\n', b'GET / HTTP/3.0\r\n\r\n', b'GET / HTTP/1.1\r\nContent-Length: x\r\n\r\n', b'GET / HTTP/1.1\r\na b: c\r\n\r\n',
           b'POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n', b'GET / HTTP/1.1\r\nTransfer-Encoding: chunked\r\nTransfer-Encoding: gzip\r\n\r\n']
TEXTS = [b'', b'a', b'hello', b'\xc3\xa9', b'\xe2\x82\xac!', b'\xf0\x9f\x98\x80', 'Grüße'.encode(), b'x' * 60]
BADTEXTS = [b'\xff', b'\xc3', b'ab\xe2\x82', b'\xc0\xaf', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\x80', b'\xe2\x28\xa1', b'\xf8\x88\x80\x80\x80']


def key(r):
    return bytes(r.choice([0, 0, r.randrange(256)]) for _ in range(4)) if r.random() < .9 else None


def frames(r, n, viol=.12, big=.02, masked=True):
    """A peer's frames: [(kind, fin, op, payload, wire bytes)]"""
    out = []

    def add(fin, op, pl, **kw):
        out.append(('f', fin, op, pl, mkframe(fin, op, pl, key(r) if masked else None, **kw)))

    def ctl():
        x = r.random()
        pl = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 4, 125] if r.random() < .3 else [0, 1, 4])))
        add(1, 9 if x < .75 else 10, pl)
    for _ in range(n):
        x = r.random()
        if x < viol:
            y = r.randrange(8)
            if y == 0:
                add(1, 0, b'zz')                         # continuation without start
            elif y == 1:
                add(0, 1, b'start')
                add(1, r.choice([1, 2]), b'inside')      # new message inside a message
            elif y == 2:
                t = r.choice(BADTEXTS)
                if r.random() < .5:
                    add(1, 1, t)
                else:
                    c = r.randrange(len(t) + 1)
                    add(0, 1, b'ok' + t[:c])
                    add(1, 0, t[c:])
            else:
                w = [mkframe(1, 1, b'r', key(r), rsv=r.choice([1, 2, 4])), mkframe(1, r.choice([3, 4, 7, 11, 15]), b'o', key(r)), mkframe(0, r.choice([8, 9, 10]), b'', key(r)),
                     mkframe(1, r.choice([8, 9, 10]), b'y' * 126, key(r)), mkframe(0, 3, b'', key(r))][y - 3]
                out.append(('bad', 0, 0, b'', w))
        elif x < .3:
            ctl()
        elif x < .4:
            y = r.random()
            if y < .3:
                pl = b''
            elif y < .4:
                pl = b'\x03'
            else:
                pl = r.choice([1000, 1001, 3000, 4999, 1009]).to_bytes(2, 'big') + r.choice([b'', b'bye', 'Tschüß'.encode(), b'\xff\xfe', b'q' * 123])
            add(1, 8, pl)
        else:
            op = r.choice([1, 1, 2])
            body = b''.join(r.choice(TEXTS) for _ in range(r.choice([1, 1, 2, 3]))) if op == 1 else bytes(r.randrange(256) for _ in range(r.choice([0, 1, 7, 125, 126, 127])))
            if r.random() < big:
                body = b'B' * r.choice([126, 65535, 65536, 70000])
            k = r.choice([1, 1, 1, 2, 3, 4])
            if k == 1:
                add(1, op, body, long=r.choice([0, 0, 0, 0, 2, 1 if len(body) < 65536 else 0]))
            else:
                body = body[:19000] if r.random() < .3 else body[:1000]  # (long ones are compared whole)
                cuts = sorted(r.randrange(len(body) + 1) for _ in range(k - 1))
                for j, (a, b) in enumerate(zip([0] + cuts, cuts + [len(body)])):
                    add(int(j == k - 1), op if j == 0 else 0, body[a:b])
                    if j < k - 1 and r.random() < .4:
                        ctl()
    return out


def fop(k, f):
    return 'bad,%d,%s' % (k, hx(f[4])) if f[0] == 'bad' else 'f,%d,%d,%d,%s,%s' % (k, f[1], f[2], hx(f[3]), hx(f[4]))


class Gen:
    def __init__(self, r, wsy, clients, noise):
        self.r, self.wsy, self.noise = r, wsy, noise
        self.ids, self.nk = 0, clients

    def req(self, k):
        r = self.r
        if self.noise and r.random() < .05:
            return 'bad,%d,%s' % (k, hx(r.choice(BADHTTP)))
        up = r.random() < self.wsy
        self.ids += 1
        b, ver, ka, n, up = request(r, self.ids, k, up)
        return 'q,%d,%d,%d,%d,%d,%d,%s' % (k, self.ids, ver, ka, n, up, hx(b))

    def answer(self):
        r = self.r
        if r.random() < self.wsy:
            return r.choice(['up,.'] * 5 + ['post,.', 'ok,.,2'])
        n = r.choice([0, 1, 3, 10, 40]) if r.random() > .05 else r.choice([1023, 1024, 3000, 20000])
        return r.choice(['ok,.,%d' % n] * 4 + ['okc,.,%d' % n] * 2 + ['str,.,%d' % n] * 2 + ['strc,.'] * 2 + ['post,.'] * 4 + ['thr', 'auth', 'thr', 'ok,.,1 thr', 'post,. thr', 'str,.,9 thr', 'ok,.,1 auth'])

    def app(self, k):
        """something the application does for connection k at any time"""
        r = self.r
        if self.own and r.random() < .12:
            return 'cls,%s' % k
        n = r.choice([0, 1, 2, 5, 20]) if r.random() > .05 else r.choice([1000, 1024, 3000])
        if r.random() < self.wsy:
            return r.choice(['wt,%s,%d' % (k, r.choice([0, 1, 5, 125, 126, 200] if r.random() > .04 else [1024, 3000, 65535, 65536, 70000]))] * 4 + ['wb,%s,%d' % (k, n)] + ['wping,%s,%d' % (k, r.choice([1, 9, 130]))] + ['ws,%s,%d' % (k, r.choice([1, 2]))] * 3 +
                            ['put,%s,%d' % (k, n)] * 3 + ['putb,%s,%d' % (k, n)] + ['last,%s' % k] * 3 + ['lastb,%s' % k] +
                            ['ws,%s,1 putb,%s,%d lastb,%s' % (k, k, n, k)] * 2 +
                            ['wc,%s,%d,%d' % (k, r.choice([1000, 1005, 1001, 0, 4000]), r.choice([0, 3, 130]))] * (r.random() < .4) + ['thr,%d' % r.choice([3, 130])] * (r.random() < .3))
        return r.choice(['ok,%s,%d' % (k, n)] * 3 + ['okc,%s,%d' % (k, n)] + ['str,%s,%d' % (k, n)] + ['strc,%s' % k] + ['up,%s' % k] * (self.wsy > 0) +
                        ['put,%s,%d' % (k, n)] * 3 + ['putb,%s,%d' % (k, n)] * 2 + ['last,%s' % k] * 2 + ['lastb,%s' % k] * 1)

    def hblock(self):
        r = self.r
        if self.own and r.random() < .1:
            return ['cls,.']
        x = r.random()
        if x < .45:
            return [self.answer()] + [self.app('.') for _ in range(r.choice([0, 0, 1, 2]))]
        if x < .5:
            return [self.app(r.randrange(self.nk)), self.answer()]
        return [self.app('.') for _ in range(r.choice([0, 1, 1, 2, 3]))]

    def eblock(self):
        r = self.r
        b = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.randrange(self.nk)
            x = r.random()
            if x < .45:
                b.append('snd,%d,%d' % (k, r.choice([0, 0, 0, 1, 2, 5, 30])))
            elif x < .6:
                b.append('space,%d,%d' % (k, r.choice([1, 3, 20, 200, 1000])))
            elif x < .75:
                b.append(self.app(k))
            elif x < .85:
                if r.random() < self.wsy:
                    b += [fop(k, f) for f in frames(r, 1, .12 if self.noise else .03)]
                else:
                    b.append(self.req(k))
            elif x < .9:
                b.append('inc')
            elif x < .95 and self.noise:
                b.append(r.choice(['peof,%d' % k, 'peof,%d' % k, 'perr,%d' % k]))
            elif x > .985:
                b.append('age,%d' % r.choice([400, 499, 501, 600, 999, 1000, 3000]))
            elif self.wsy and x > .97:
                b.append('age,%d' % r.choice([1000, 14999, 15000, 44000, 44999, 45000, 50000]))
        return b


def script(r, wsy=.1, clients=(1, 2, 3), noise=True):
    own = r.random() < .15   # connections without http::Server, used again and again
    g = Gen(r, wsy, r.choice(clients) + (r.randrange(3) if own else 0), noise)
    g.own = own
    cfg = ['pool'] if own else []
    if r.random() < .4:
        cfg.append('sp,%d' % r.choice([1, 10, 100, 150, 300]))
    if r.random() < .3:
        cfg.append('ms,%d' % r.choice([1, 7, 50]))
    if r.random() < .3:
        cfg.append('mr,%d' % r.choice([1, 2, 7]))
    if r.random() < .2:
        cfg.append('mb,1')
    if r.random() < .3:   # the date of the day: ends of months and years, leap years
        y = r.choice([1970, 1971, 1972, 1999, 2000, 2001, 2023, 2024, 2026, 2038, 2099, 2100, 2104])
        d = datetime.datetime(y, r.randrange(1, 13), 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(days=r.choice([0, 0, 8, 9, 27, 28]), seconds=r.choice([-1, 0, 5, 35999, 43200, 86399]))
        cfg.append('wall,%d' % max(0, int(d.timestamp())))
    cfg.append('max,%d' % r.choice([1, 2, 3, 9]))
    for k in range(g.nk):
        if r.random() < .4:
            cfg.append('pre,%d' % k)
        heavy = r.random() < wsy
        if heavy and r.random() < .8:
            g.ids += 1
            b, ver, ka, n, up = request(r, g.ids, k, True)
            cfg.append('q,%d,%d,%d,%d,%d,%d,%s' % (k, g.ids, ver, ka, n, up, hx(b)))
            cfg += [fop(k, f) for f in frames(r, r.choice([0, 1, 2, 4]), .1 if noise else .02)]
        else:
            cfg += [g.req(k) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
        if r.random() < .8:
            cfg.append('inc')
    hb = [g.hblock() for _ in range(r.randrange(0, 12))]
    eb = [g.eblock() for _ in range(r.randrange(1, 12))]
    # at the end everything is sent and there is space
    end = []
    if r.random() < .6:
        for k in range(g.nk):
            end += ['space,%d,100000' % k, 'snd,%d,0' % k]
        eb += [end, []]
    return join(cfg, hb, eb)


def serv(c, groups):
    exe = c.build(['drv_serv'])['drv_serv']
    s = []
    for n, kw in groups:
        s += [script(c.rnd, **kw) for _ in range(n)]
    c.assumptions += ['the in-process kernel (harness/fk.cpp) behaves like Linux sockets and epoll edge triggering', 'clients are byte streams without TLS; a half-closed client counts as disconnected',
                      'a disconnect behind unread pipelined bytes, or while a response is streamed, is noticed only when reading resumes']
    c.conform('drv_serv', exe, 'HttpServTrace', s, post=server_events)


UNIT = 150


def impl_script(h):
    """History of HttpServImpl -> driver script; a unit is about the size of the head of an answer."""
    req, half = {}, set()

    def fix(a):
        if a[0] == 'sp':
            a[1] *= UNIT
        elif a[0] == 'req':
            i, kind = a[1], a[2]
            if kind == 'm':
                req[i] = b'@ / HTTP/1.1\r\n\r\n'
                a[:] = ['bad', 0, hx(req[i])]
            else:
                req[i] = ('GET /r%d HTTP/1.1\r\nHost: h0\r\n%s\r\n' % (i, '' if kind == 'k' else 'Connection: close\r\n')).encode()
                a[:] = ['q', 0, i, 11, int(kind == 'k'), 0, 0, hx(req[i])]
        elif a[0] == 'send':
            i, n = a[1], len(req[a[1]])
            a[:] = ['snd', 0, n - 1 if not a[2] else 1 if i in half else n]
            half.add(i)
        else:
            if a[0] in ('ok', 'str', 'put', 'putb', 'space'):
                a[2] *= UNIT
            if len(a) > 1 and a[1] == -1:
                a[1] = '.'
    return from_hist(h, fix)


def design(c, gens, models):
    for m in models:
        c.model('HttpServImpl', m, timeout=c.q(300, 3000))
    exe = c.build(['drv_serv'])['drv_serv']
    for g in gens:
        c.conform('drv_serv', exe, 'HttpServTrace', [impl_script(h) for h in c.scripts_from_model('HttpServImpl', g, limit=c.q(1500, 10 ** 9))], post=server_events)


import a_client  # noqa: E402 (it uses this module)


def C10(c):
    serv(c, [(c.q(2500, 40000), dict(wsy=0, clients=(1,))), (c.q(1200, 20000), dict(wsy=.1, clients=(1, 2))), (c.q(800, 10000), dict(wsy=0, clients=(1, 2), noise=False))])
    design(c, ['HttpServImpl_g1.cfg', 'HttpServImpl_g2.cfg'], c.q(['HttpServImpl.cfg'], ['HttpServImpl.cfg', 'HttpServImpl_t1.cfg', 'HttpServImpl_t2.cfg']))


def C12(c):
    serv(c, [(c.q(3000, 40000), dict(wsy=.05, clients=(2, 3, 4))), (c.q(1000, 15000), dict(wsy=.3, clients=(2, 3)))])


def C13(c):
    serv(c, [(c.q(3000, 40000), dict(wsy=.95, clients=(1,))), (c.q(800, 15000), dict(wsy=.8, clients=(2,)))])
    a_client.web(c, c.q(1200, 20000))


def C14(c):
    serv(c, [(c.q(3000, 40000), dict(wsy=.95, clients=(1,), noise=False)), (c.q(800, 15000), dict(wsy=.8, clients=(2,)))])
    a_client.web(c, c.q(1200, 20000))
