"""HTTP client connections and simple requests: C15, C17, and the client's side of web sockets (C13, C14)."""
from a_loop import join
from a_serv import frames, hx
from wire import client_events, mkframe, pattern

BAD = [b'\x70\x01', b'HTTP/3.0 200 OK\r\n\r\n', b'HTTP/1.1 2x0 OK\r\n\r\n', b'HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n', b'HTTP/1.1 200 OK\r\na b: c\r\n\r\n', b'HTTQ',
       b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n', b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nTransfer-Encoding: gzip\r\n\r\n']


def response(r, i):
    """(status, ver, ka, body length, bytes)"""
    ver = r.choice([11, 11, 11, 10])
    ka = 1 if ver == 11 else 0
    st = r.choice([200, 200, 200, 404, 500, 302])
    h = ['X-Id: %d' % i, 'Server: raw']
    x = r.random()
    if x < .2:
        h.append('Connection: close')
        ka = 0
    elif x < .4:
        h.append('Connection: keep-alive')
        ka = 1
    n = r.choice([0, 1, 5, 30, 30])
    b = pattern(i, 0, n)
    if ver == 11 and r.random() < .5:
        h.append('Transfer-Encoding: chunked')
        out, p = b'', 0
        while p < n:
            q = min(n - p, r.choice([1, 3, 16]))
            out += b'%x\r\n' % q + b[p:p + q] + b'\r\n'
            p += q
        b = out + b'0\r\n\r\n'
    else:
        h.append('Content-Length: %d' % n)
    r.shuffle(h)
    return st, ver, ka, n, ('HTTP/1.%d %d %s\r\n' % (ver - 10, st, r.choice(['OK', 'Some Thing'])) + '\r\n'.join(h) + '\r\n\r\n').encode() + b


def rop(r, i):
    st, ver, ka, n, b = response(r, i)
    return 'r,%d,%d,%d,%d,%d,%s' % (i, st, ver, ka, n, hx(b))


def fop(f):
    return 'bad,%s' % hx(f[4]) if f[0] == 'bad' else 'f,%d,%d,%s,%s' % (f[1], f[2], hx(f[3]), hx(f[4]))


HOSTS = ['a.test', 'b.test']


class Gen:
    def __init__(self, r, wsy, noise, simple=False, good=.95):
        self.good, self.r, self.wsy, self.noise, self.simple, self.ids, self.rids = good, r, wsy, noise, simple, 0, 0

    def conn(self):
        r = self.r
        return r.choice(['conn,%d' % r.choice([80, 81]), 'conr', 'conh,%s,%d' % (r.choice(HOSTS), r.choice([80, 81]))])

    def req(self):
        r = self.r
        self.ids += 1
        if r.random() < self.wsy:
            return 'upg,%d' % self.ids
        return 'req,%d,%d,%d' % (self.ids, r.choice([0, 0, 3, 40]), r.choice([0, 0, 0, 1, 2, 4, 6]))

    def send(self):
        r = self.r
        self.ids += 1
        return 'send,%d,%d,%d,%s,%d' % (self.ids, r.choice([0, 0, 3, 40]), r.choice([0, 0, 0, 1, 2, 4, 6, 8, 8, 24, 40, 56]), r.choice(['a.test', 'a.test', 'a.test', 'b.test']), r.choice([80, 80, 80, 81]))

    def wmsg(self):
        r = self.r
        return r.choice(['wt,%d' % r.choice([0, 1, 5, 125, 126, 200] if r.random() > .04 else [1024, 3000, 65535, 65536, 70000])] * 3 + ['wb,%d' % r.choice([0, 2, 20])] + ['wping,%d' % r.choice([0, 1, 130])] +
                        ['wc,%d,%d' % (r.choice([1000, 1005, 1001, 0, 4000]), r.choice([0, 3, 130]))] * (r.random() < .5))

    def answer(self):
        """what the server sends"""
        r = self.r
        if self.noise and r.random() < .06:
            return ['bad,' + hx(r.choice(BAD))]
        if r.random() < self.wsy:
            if r.random() < .35:
                return ['sup,%d' % (0 if r.random() < self.good else r.randrange(64))]
            return [fop(f) for f in frames(r, r.choice([1, 1, 2]), .1 if self.noise else .02, .02, r.random() < .1)]
        self.rids += 1
        return [rop(r, self.rids)]

    def app(self):
        r = self.r
        x = r.random()
        if self.simple:
            return [self.send()] if x < .67 else ['bads,%d,%s' % (r.randrange(8), r.choice(HOSTS))] if x < .7 else ['cancel'] if x < .85 else ['renew'] if x < .92 else ['cancel', self.send()]
        if x < .45:
            return [self.wmsg()] if r.random() < self.wsy else [self.req()]
        if x < .52:
            return [self.req()]
        if x < .6:
            return [r.choice(['read', 'one', 'st'])]
        if x < .7:
            return ['close']
        if x < .72:
            return ['badc,%d,%s' % (r.randrange(4), r.choice(HOSTS))]
        if x < .75:
            return ['renew']
        if x < .9:
            return [self.conn(), self.req()]
        return [self.conn()]

    def world(self):
        r = self.r
        x = r.random()
        if x < .2:
            return ['dns,%d' % r.choice([1, 1, 1, 2, 3, 0 if self.noise else 1])]
        if x < .35:
            return ['cok'] if not self.noise or r.random() < .9 else ['cfail,111']
        if x < .6:
            return self.answer() + ['snd,0'] * (r.random() < .7)
        if x < .8:
            return ['snd,%d' % r.choice([0, 0, 0, 1, 2, 5, 30])]
        if x < .88:
            return ['space,%d' % r.choice([1, 3, 20, 200, 1000])]
        if x < .94:
            if self.noise:
                return [r.choice(['peof', 'peof', 'perr'])]
            return []
        if x < .97:
            return [r.choice(['ci,1', 'ci,0'] + ['fc,101', 'fs,24', 'fe'] * self.noise)]
        return ['age,%d' % r.choice([1, 1000, 9999, 10000, 14999, 15000])]

    def hblock(self):
        r = self.r
        if self.simple:
            return sum([self.app() for _ in range(r.choice([0, 1, 1, 1, 2]))], [])
        b = ['read'] if r.random() < .6 else ['one'] if r.random() < .4 else []
        for _ in range(r.choice([0, 1, 1, 2])):
            b += self.app()
        return b

    def eblock(self):
        r = self.r
        b = []
        for _ in range(r.choice([1, 1, 2, 3])):
            b += self.app() if r.random() < .25 else self.world()
        return b


def script(r, wsy=.0, noise=True, simple=False, good=.95):
    g = Gen(r, wsy, noise, simple, good)
    cfg = [r.choice(['simple', 'simple,1'])] if simple else []
    if r.random() < .4:
        cfg.append('sp,%d' % r.choice([1, 10, 100, 150, 300]))
    if r.random() < .3:
        cfg.append('ms,%d' % r.choice([1, 7, 50]))
    if r.random() < .3:
        cfg.append('mr,%d' % r.choice([1, 2, 7]))
    if r.random() < .2:
        cfg.append('mb,1')
    if r.random() < .5:
        cfg.append('ci,1')
    if simple:
        cfg.append(g.send())
    else:
        if r.random() < .9:
            cfg.append(g.conn())
        if r.random() < .8:
            cfg.append(g.req())
    eb = []
    if r.random() < .8:          # the usual course of things
        b = ['dns,%d' % r.choice([1, 2])]
        if r.random() < .3:
            eb.append(b)
            b = []
        eb.append(b + ['cok', 'space,1000'])
        if wsy and r.random() < .85:
            b = ['sup,%d' % (0 if r.random() < g.good else r.randrange(64))] + sum([g.answer() for _ in range(r.choice([0, 0, 1, 2]))], [])
            eb.append(b + ['snd,%d' % r.choice([0, 0, 1, 50, 140])])
        elif r.random() < .85:
            eb.append(g.answer() + ['snd,%d' % r.choice([0, 0, 0, 1, 20, 60])])
        if r.random() < .5:
            eb.insert(r.randrange(len(eb)), g.eblock())
    eb += [g.eblock() for _ in range(r.randrange(1, 12))]
    hb = [g.hblock() for _ in range(r.randrange(0, 12))]
    if r.random() < .6:
        end = ['dns,1', 'cok', 'space,100000', 'snd,0']
        eb += [end, end, []]
    return join(cfg, hb, eb)


def rounds(r):
    """the same connection object for several web sockets, each left at some point"""
    g = Gen(r, 1, True, good=1)
    eb = []
    for i in range(r.choice([2, 3])):
        b = [r.choice(['conn,80', 'conn,80', 'conn,80', 'renew conn,80', 'close conn,80'])]
        b += [g.req()] if r.random() < .95 else ['req,%d,0,0' % (g.ids + 50)]
        eb.append(b + ['space,100000'])
        fs = frames(r, r.choice([1, 1, 2, 3]), .15)
        eb.append(['sup,0'] + [fop(f) for f in fs] + ['snd,%d' % r.choice([0, 0, 0, 131, 140, 150, 160, 200])])
        x = r.random()
        if x < .3:
            eb.append([g.wmsg()])
        elif x < .5:
            eb.append(['peof' if r.random() < .7 else 'perr'])
        elif x < .6:
            eb.append(['age,15000'])
    eb += [['snd,0'], [], []]
    return join(['ci,1'], [['read'] if r.random() < .8 else ['one'] for _ in range(r.randrange(4))], eb)


def client(c, groups, trace='HttpCliTrace', name='drv_client'):
    exe = c.build(['drv_client'])['drv_client']
    s = []
    for n, kw in groups:
        s += [rounds(c.rnd) if kw is None else script(c.rnd, **kw) for _ in range(n)]
    c.assumptions += ['the in-process kernel (harness/fk.cpp) behaves like Linux sockets and epoll edge triggering', 'the server is a byte stream without TLS',
                      'the lookup thread is scheduled so that an answer arrives only at scripted moments (other interleavings: C04, C16)']
    c.conform(name, exe, trace, s, post=client_events)


def C15(c):
    client(c, [(c.q(3000, 40000), dict()), (c.q(800, 15000), dict(noise=False)), (c.q(1000, 15000), dict(wsy=.6, good=.5)), (c.q(500, 8000), dict(wsy=.3, good=.2))])


def C17(c):
    client(c, [(c.q(3500, 40000), dict(simple=True)), (c.q(1000, 20000), dict(simple=True, noise=False))], 'HttpSimpleTrace')


def web(c, n):
    client(c, [(n, dict(wsy=.95, good=.97)), (n // 2, dict(wsy=.95, noise=False, good=1)), (n // 2, None)])
