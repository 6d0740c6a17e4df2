"""Sockets, acceptors, UDP, signals on one loop: C02, C06, C18, C19, C22."""
from a_loop import join, from_hist, rnd_script as loop_script


def rnd_op(r, w):
    """w: weights for groups tcp, acc, udp, sig, world"""
    g = r.choices(['tcp', 'acc', 'udp', 'sig', 'note'], w)[0]
    s, k = r.randrange(3), r.randrange(4)
    n = r.choice([1, 1, 2, 3, 5, 8, 20])
    if g == 'tcp':
        if r.random() < .4:
            return r.choice(['psend,%d,%d' % (k, n)] * 5 + ['peof,%d' % k, 'perr,%d' % k] + ['cok,%d' % k] * 3 + ['cfail,%d' % k] + ['space,%d,%d' % (k, n)] * 2)
        return r.choice(['conn,%d' % s] * 3 + ['conn,%d,%s' % (s, r.choice(['imm', 'imm', 'fail', 'fail,11', 'fail,99', 'fail,13', 'nosock', 'noep']))] +
                        ['rd,%d,%d' % (s, n)] * 3 + ['rd2,%d,%d,%d' % (s, r.choice([n, n, 0]), r.choice([0, 1, 3]))] * 2 + ['rd,%d,0' % s, 'wr,%d,0' % s] + ['rdall,%d' % s] * 3 +
                        ['wr,%d,%d' % (s, n)] * 4 + ['wrall,%d,%d' % (s, n)] * 2 +
                        ['wrv,%d,' % s + ','.join(str(r.choice([0, 1, 2, 5, 9])) for _ in range(r.choice([1, 2, 3, 5, 20])))] * 2 +
                        ['close,%d' % s, 'closee,%d' % s, 'wsh,%d' % s, 'del,%d' % s, 'new,%d' % s, 'del,%d new,%d' % (s, s)])
    if g == 'acc':
        a = r.choice([0, 0, 1])
        return r.choice(['inc,%d' % a] * 4 + ['inc,%d inc,%d' % (a, a)] + ['aerr,%d,%d' % (a, r.randrange(8))] * 2 + ['can,%d' % a] * 2 +
                        ['acc,%d,%d' % (s, a)] * 3 + ['acc,%d,%d,bad' % (s, a), 'accall,%d' % a, 'accall,%d' % a, 'anew,%d' % a, 'anew,%d' % a, 'adel,%d' % a])
    if g == 'udp':
        u = r.randrange(2)
        if r.random() < .5:
            return r.choice(['uarr,%d,%d' % (u, r.choice([0, 0, 1, 3, 9, 12, 12, 1473] if r.random() < .1 else [0, 0, 1, 3, 9, 12]))] * 5 + ['uerr,%d' % u, 'uerr,%d' % u, 'userr,%d' % u] + (['upers,%d' % u] if r.random() < .1 else []) + [ 'uspace,%d,%d' % (u, r.choice([1, 2, 5]))])
        return r.choice(['ur,%d,%d' % (u, r.choice([0, 1, 3, 9, 20, 50, 2000]))] * 4 + ['urall,%d,%d' % (u, r.choice([0, 4, 50]))] * 2 +
                        ['uw,%d,%d' % (u, r.choice([0, 1, 4]))] * 3 + ['uwall,%d,2' % u] * 2 + ['unew,%d' % u] * 2 + ['udel,%d' % u, 'udel,%d unew,%d' % (u, u)])
    if g == 'sig':
        return r.choice(['sig,%d' % r.choice([2, 10, 12, 15])] * 5 + ['gnew,1', 'gnew,2', 'gdel,1', 'gdel,2'])
    x = r.randrange(2)
    return r.choice(['wcall,%d' % x] * 4 + ['wcan,%d' % x, 'wdel,%d' % x, 'wnew,%d' % x, 'wnew,%d' % x, 'tarm', 'tarm', 'tarm', 'tcan', 'tdel', 'tnew', 'tnew'])


def rnd_script(r, w):
    cfg = []
    if r.random() < .6:
        cfg.append('sp,%d' % r.choice([1, 2, 3, 5, 9]))
    if r.random() < .4:
        cfg.append('ms,%d' % r.choice([1, 2, 4]))
    if r.random() < .4:
        cfg.append('mr,%d' % r.choice([1, 2, 4]))
    if r.random() < .3:
        cfg.append('mb,%d' % r.choice([1, 2]))
    if w[0]:
        cfg.append('conn,%d' % r.randrange(3))
        if r.random() < .6:
            cfg.append('conn,%d' % r.randrange(3))
    if w[1]:
        cfg.append('anew,0')
    if w[2]:
        cfg += r.sample(['unew,0', 'unew,1'], r.choice([1, 2]))
    if w[3]:
        cfg += r.sample(['gnew,1', 'gnew,2'], r.choice([1, 2]))
    if w[4]:
        cfg += ['wnew,0', 'wnew,1', 'tnew']
    cfg += [rnd_op(r, w) for _ in range(r.randrange(0, 6))]

    def env():
        b = []
        if w[0] and r.random() < .3:
            b.append('cok,%d' % r.randrange(2))
        b += [rnd_op(r, w) for _ in range(r.choice([1, 1, 2, 3, 4]))]
        if r.random() < .15:
            b.append('sig,2')
        return b
    hb = [[rnd_op(r, w) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))] for _ in range(r.randrange(0, 14))]
    return join(cfg, hb, [env() for _ in range(r.randrange(1, 12))])


ASSUME = ['the in-process kernel (harness/fk.cpp) behaves like Linux sockets, epoll edge triggering and accept; threads are covered by C03/C04 only']


def net(c, weights, n):
    exe = c.build(['drv_net'])['drv_net']
    scripts = []
    for w, k in zip(weights, n):
        scripts += [rnd_script(c.rnd, w) for _ in range(k)]
    c.assumptions += ASSUME
    return exe, scripts


def C06(c):
    exe, s = net(c, [(1, 0, 0, 0, 0), (6, 1, 0, 0, .5)], [c.q(4000, 60000), c.q(1500, 20000)])
    c.conform('drv_net', exe, 'NetTrace', s)
    design(c, 'TcpImpl', ['TcpImpl_g.cfg'], c.q(4000, 10 ** 9), exe)


def design(c, module, gens, limit, exe, driver='drv_net', trace='NetTrace'):
    """The design is checked against the contract (its monitor); scripts that together take every transition
    of its (smaller) bounded state graphs are replayed."""
    c.model(module, module + c.q('', '_t') + '.cfg', timeout=c.q(300, 3000))
    for g in gens:
        s = [from_hist(h) for h in c.scripts_from_model(module, g, limit=limit)]
        c.conform(driver, exe, trace, s)


def C18(c):
    exe, s = net(c, [(.3, 3, 0, 0, 0), (1, 4, 0, .2, .5)], [c.q(4000, 60000), c.q(1000, 20000)])
    c.conform('drv_net', exe, 'NetTrace', s)
    design(c, 'AccImpl', ['AccImpl_g.cfg'], c.q(4000, 10 ** 9), exe)


def C19(c):
    exe, s = net(c, [(0, 0, 1, 0, 0), (0, 0, 6, .5, 1)], [c.q(4000, 60000), c.q(1000, 20000)])
    for n in (255, 256, 1472, 1473, 1500, 4096, 9000, 65507):     # sizes at which someone may cut
        for u in (0, 1):
            s.append(join(['unew,%d' % u], [['ur,%d,65507' % u, 'ur,%d,%d' % (u, n), 'ur,%d,%d' % (u, n - 1), 'ur,%d,9' % u]], [['uarr,%d,%d' % (u, n)] * 3, ['uw,%d,%d' % (u, n)]]))
    c.conform('drv_net', exe, 'NetTrace', s)
    design(c, 'UdpImpl', ['UdpImpl_g0.cfg', 'UdpImpl_g1.cfg'], c.q(3000, 10 ** 9), exe)


def C22(c):
    exe, s = net(c, [(0, 0, 0, 1, 0), (.5, .5, .5, 3, 1)], [c.q(3000, 40000), c.q(1500, 20000)])
    c.conform('drv_net', exe, 'NetTrace', s)
    design(c, 'BatchImpl', ['BatchImpl_g3.cfg'], c.q(3000, 10 ** 9), exe)


def C02(c):
    exe, s = net(c, [(3, 2, 1, 1, 2), (4, 0, 0, 0, 2), (0, 2, 2, 1, 2)], [c.q(4000, 60000), c.q(1000, 20000), c.q(1000, 20000)])
    loop = c.build(['drv_loop'])['drv_loop']
    c.conform('drv_loop', loop, 'LoopTrace', [loop_script(c.rnd, 3, 3, 4) for _ in range(c.q(1500, 20000))])
    c.conform('drv_net', exe, 'NetTrace', s)
    design(c, 'BatchImpl', ['BatchImpl_g%d.cfg' % k for k in (1, 2, 3, 4)], c.q(2000, 10 ** 9), exe)
