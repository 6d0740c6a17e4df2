"""Run loop: C01 (timers), C05 (idles)."""


def from_hist(h, fix=None):
    """History of a design model -> driver script: <<"H">> and <<"E">> start a handler / environment block."""
    cfg, hb, eb = [], [], []
    cur = cfg
    for x in h:
        if x[0] == 'H':
            cur = []
            hb.append(cur)
        elif x[0] == 'E':
            cur = []
            eb.append(cur)
        elif x[0] != 'full':
            a = list(x)
            if fix:
                fix(a)
            cur.append(','.join(map(str, a)))
    return join(cfg, hb, eb)


def loop_names(a):
    if a[0] in ('wcall', 'wcancel', 'ion', 'ioff'):
        a[1] = {10: 0, 11: 1, 20: 0, 21: 1, 22: 2}[a[1]]


def join(cfg, hb, eb):
    return ' '.join(cfg) + ' # ' + ' / '.join(' '.join(b) for b in hb) + ' # ' + ' / '.join(' '.join(b) for b in eb)


def rnd_timer_op(r, nt):
    t = r.randrange(nt)
    k = r.random()
    if k < .5:
        return '%s,%d,%d' % (r.choice(['arm', 'armd', 'armat']), t, r.choice([0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 40]))
    if k < .62:
        return 'cancel,%d' % t
    if k < .68:
        return 'del,%d new,%d' % (t, t)
    if k < .72:
        return 'del,%d' % t
    if k < .76:
        return 'new,%d' % t
    if k < .80:
        return 'armneg,%d,%d' % (t, r.randrange(3))
    if k < .84:
        return 'armhuge,%d,%d' % (t, r.randrange(5))
    if k < .88:
        return 'armlong,%d,%d' % (t, r.choice([-4, -1, 0, 1, 4]))
    if k < .94:
        return 'slow,%d' % r.choice([1, 3, 4, 9])
    return 'seth,%d' % t


def rnd_idle_op(r, ni):
    i = r.randrange(ni)
    k = r.random()
    if k < .5:
        return 'ion,%d' % i
    if k < .75:
        return 'ioff,%d' % i
    if k < .85:
        return 'idel,%d' % i
    return 'inew,%d' % i


def rnd_watch_op(r, nw):
    w = r.randrange(nw)
    k = r.random()
    if k < .6:
        return 'wcall,%d' % w
    if k < .8:
        return 'wcancel,%d' % w
    if k < .9:
        return 'wdel,%d' % w
    return 'wnew,%d' % w


def rnd_script(r, wt, wi, ww):
    def op():
        x = r.random() * (wt + wi + ww)
        if x < wt:
            return rnd_timer_op(r, r.choice([2, 3, 4]))
        if x < wt + wi:
            return rnd_idle_op(r, r.choice([2, 4]))
        return rnd_watch_op(r, 3)
    cfg = [op() for _ in range(r.randrange(1, 7))]
    hb = [[op() for _ in range(r.choice([0, 0, 1, 1, 2, 3]))] for _ in range(r.randrange(1, 14))]
    for b in hb:
        if r.random() < .05:
            b.append('sig')
    eb = []
    for _ in range(r.randrange(1, 10)):
        b = []
        k = r.random()
        if k < .3:
            b.append('adv,%d' % r.choice([0, 1, 3, 4, 5, 8]))
        if k < .15 or k > .85:
            b.append('sig')
        if ww and r.random() < .4:
            b.append('wcall,%d' % r.randrange(3))
        eb.append(b)
    return join(cfg, hb, eb)


def loop_check(c, weights, cfg, limit, nrand):
    exe = c.build(['drv_loop'])['drv_loop']
    c.model('LoopImpl', 'LoopImpl_%s.cfg' % c.q('q', 't'), timeout=800)
    scripts = [from_hist(h, loop_names) for h in c.scripts_from_model('LoopImpl', cfg, limit=limit)]
    scripts += [rnd_script(c.rnd, *weights) for _ in range(nrand)]
    c.conform('drv_loop', exe, 'LoopTrace', scripts)
    c.assumptions += ['the in-process kernel (harness/fk.cpp) behaves like Linux epoll/eventfd/signalfd; time only advances in OS waits and scripted slow handlers']


def C01(c):
    loop_check(c, (8, 1, 1), 'LoopImpl_c01.cfg', c.q(2500, 40000), c.q(3000, 60000))


def C05(c):
    loop_check(c, (1, 5, 1), 'LoopImpl_c05.cfg', c.q(2500, 40000), c.q(3000, 60000))
