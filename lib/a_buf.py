"""Buffered TCP socket: C07."""
from a_loop import join
from a_net import design


def rnd_op(r, big):
    s = r.choice([0, 0, 0, 1])
    k = r.randrange(3)
    n = r.choice([1, 1, 2, 3, 5, 8, 20] + ([300, 1023, 1024, 2000] if big else []))
    x = r.random()
    if x < .33:
        return r.choice(['psend,%d,%d' % (k, r.choice([1, 3, 20]))] * 4 + ['peof,%d' % k] * 2 + ['perr,%d' % k] + ['cok,%d' % k] * 3 + ['cfail,%d' % k] +
                        ['space,%d,%d' % (k, n)] * 5 + ['pbig,%d,5000' % k] * (r.random() < .1) + ['inc,%d' % s])
    if x < .9:
        return r.choice(['put,%d,%d,%s' % (s, n, r.choice('wwwWWbBoO'))] * 6 + ['some,%d,%d' % (s, n)] * 3 + ['sall,%d,%d' % (s, n)] +
                        ['sd,%d' % s] * 2 + ['rd,%d,%d' % (s, r.choice([1, 5, 30]))] * 2 + ['rdall,%d' % s] * 2)
    return r.choice(['close,%d' % s, 'closee,%d' % s, 'del,%d' % s, 'new,%d' % s, 'del,%d new,%d' % (s, s), 'conn,%d' % s, 'conn,%d,%s' % (s, r.choice(['imm', 'imm', 'fail', 'nosock']))])


def rnd_script(r):
    big = r.random() < .1
    cfg = []
    if r.random() < .7:
        cfg.append('sp,%d' % r.choice([1, 2, 3, 5, 9, 30] + ([1000, 1500] if big else [])))
    if r.random() < .4:
        cfg.append('ms,%d' % r.choice([1, 2, 4] if not big else [100, 1000]))
    if r.random() < .2:
        cfg.append('mr,%d' % r.choice([1, 2, 4]))
    cfg.append(r.choice(['conn,0', 'conn,0,imm', 'inc,0']))
    cfg += [rnd_op(r, big) for _ in range(r.randrange(0, 6))]

    def env():
        b = []
        if r.random() < .4:
            b.append('cok,%d' % r.randrange(2))
        if r.random() < .15:
            b.append('age,%d' % r.choice([1000, 7000, 14990, 14999, 15000, 16000]))
        return b + [rnd_op(r, big) for _ in range(r.choice([1, 1, 2, 3]))]
    hb = [[rnd_op(r, big) for _ in range(r.choice([0, 1, 1, 2, 3]))] for _ in range(r.randrange(0, 10))]
    return join(cfg, hb, [env() for _ in range(r.randrange(1, 10))])


def C07(c):
    exe = c.build(['drv_buf'])['drv_buf']
    c.assumptions += ['the in-process kernel (harness/fk.cpp) behaves like Linux sockets and epoll edge triggering', 'connections without TLS']
    c.conform('drv_buf', exe, 'BufTcpTrace', [rnd_script(c.rnd) for _ in range(c.q(5000, 80000))])
    design(c, 'BufTcpImpl', ['BufTcpImpl_g.cfg'], c.q(4000, 10 ** 9), exe, 'drv_buf', 'BufTcpTrace')
