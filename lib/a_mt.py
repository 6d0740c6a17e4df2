"""C03, C04, C16: several threads, under schedules chosen by the harness; contract specs/Wake.tla + specs/Dns.tla."""
import os
import re
import vlib


def join(sched, progs, hb):
    return ('sched%s # %s # %s' % (sched, ' / '.join(' '.join(p) for p in progs), ' / '.join(' '.join(b) for b in hb)))


class Gen:
    """A random program in which no thread breaks the rules of the API."""

    def __init__(self, rnd):
        self.r = rnd
        self.h = []

    # ---- watchers: C03
    def watchers(self):
        r = self.r
        nw = r.choice([1, 1, 2, 2, 3])
        ncall = r.choice([1, 1, 2, 3])
        own_thread = r.random() < 0.25     # the loop belongs to a crab::Thread
        two = r.random() < 0.25
        ws = list(range(1, nw + 1))
        oneshot = None
        self.h = []
        if r.random() < 0.25:
            oneshot = r.choice(ws)
        callers = [[] for _ in range(ncall)]
        for k in range(r.choice([1, 2, 3, 4, 5])):
            c = r.choice(callers)
            w = r.choice(ws)
            if w == oneshot:
                continue
            c.append('call,%d' % w)
        if oneshot:
            c = r.choice(callers)
            c.insert(r.randrange(len(c) + 1), 'call,%d' % oneshot)
            self.h.append(['on,%d' % oneshot, 'wdel,%d' % oneshot] + ['call,%d' % w for w in ws if w != oneshot and r.random() < 0.3])
        rest = [w for w in ws if w != oneshot]
        for w in rest:
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                self.h.append(['on,%d' % w] + self.hops(rest, w))
        before = []
        for w in rest:
            if r.random() < 0.3:
                before.append(r.choice(['call,%d' % w, 'wcan,%d' % w]))
        if r.random() < 0.2:
            before += ['timer,1,%d' % r.choice([1, 2])]
        if r.random() < 0.15:
            before += ['idle,1,%d' % r.choice([1, 2, 3])]
        end = ['wdel,%d' % w for w in rest]
        if any(x.startswith('timer') for x in before):
            end.append('tstop,1')
        if any(x.startswith('idle') for x in before):
            end.append('istop,1')
        news = ['wnew,%d' % w for w in ws]
        runs = r.choice([1, 1, 1, 2])
        mid = [r.choice(['wcan,%d', 'call,%d']) % w for w in rest if r.random() < 0.5] if runs == 2 else []
        body = before + ['run'] + (mid + ['run'] if runs == 2 else [])
        if oneshot and r.random() < 0.5:
            r.shuffle(callers)
        if own_thread:
            # T0 makes a crab::Thread 1; callers are 2..; T0 is the last
            progs = [[], news + ['set,1'] + before + ['run'] + end]
            t0 = ['tnew,1', 'await,1']
            for i, c in enumerate(callers):
                progs.append(c)
                t0.append('spawn,%d' % (2 + i))
            if r.random() < 0.5:
                t0.append('call,%d' % r.choice(rest) if rest else 'yield')
            t0 += ['join,%d' % (2 + i) for i in range(ncall)] + ['quiet', 'tdel,1']
            progs[0] = t0
            return progs, self.h
        t0 = ['loop,1'] + news
        progs = [[]]
        for i, c in enumerate(callers):
            progs.append(c)
            t0.append('spawn,%d' % (1 + i))
        fin = ncall + 1
        progs.append(['quiet', 'lcan,1'] * runs)
        t0.insert(r.randrange(1 + nw, len(t0) + 1), 'spawn,%d' % fin)
        joins = ['join,%d' % (1 + i) for i in range(fin)]
        t0 += body + joins + end + ['lend,1']
        progs[0] = t0
        if two:
            # a second loop whose watcher 4 is called by handlers of the first, and the other way round
            progs.append(['loop,2', 'wnew,4', 'set,2', 'run', 'await,3', 'wdel,4', 'lend,2'])
            k = len(progs) - 1
            progs[fin] = ['quiet'] + ['lcan,1', 'quiet'] * (runs - 1) + r.choice([['lcan,2', 'lcan,1'], ['lcan,1', 'lcan,2']])
            t0.insert(1, 'spawn,%d' % k)
            t0.insert(2, 'await,2')
            j = t0.index(joins[0])
            t0[j + len(joins):j + len(joins)] = ['set,3', 'join,%d' % k]
            for w in rest:
                if r.random() < 0.6:
                    self.h.append(['on,%d' % w, 'call,4'] + self.hops(rest, w))
            if rest and r.random() < 0.6:
                self.h.append(['on,4', 'call,%d' % r.choice(rest)])
            if r.random() < 0.3:
                self.h.append(['on,4', r.choice(['wcan,4', 'call,4'])])
        return progs, self.h

    def hops(self, ws, w):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2])):
            out.append('%s,%d' % (r.choice(['call', 'wcan', 'wcan', 'yield']), r.choice(ws)))
        return out

    # ---- cancel of loops and crab::Thread: C04
    def cancels(self):
        r = self.r
        self.h = []
        runs = r.choice([1, 1, 2, 3])
        pre = []
        if r.random() < 0.5:
            pre += ['timer,1,%d' % r.choice([1, 2, 3])]
        if r.random() < 0.4:
            pre += ['idle,1,%d' % r.choice([1, 2, 3])]
        wat = r.random() < 0.6
        t0 = ['loop,1'] + (['wnew,1'] if wat else [])
        cancellers = r.choice([1, 2, 2, 3])
        progs = [[]]
        for i in range(cancellers):
            p = []
            for _ in range(r.choice([1, 1, 2])):
                p.append('lcan,1')
                if wat and r.random() < 0.4:
                    p.insert(r.randrange(len(p) + 1), 'call,1')
            if r.random() < 0.3:
                p.insert(0, 'quiet')
            progs.append(p)
        progs.append(['quiet', 'lcan,1'] * runs)
        sp = ['spawn,%d' % (1 + i) for i in range(cancellers + 1)]
        body = pre[:]
        for k in range(runs):
            if r.random() < 0.2:
                body.append('lcan,1')
            if wat and r.random() < 0.3:
                body.append('call,1')
            body.append('run')
        if wat:
            for _ in range(r.choice([0, 1, 2])):
                self.h.append(['on,1'] + r.choice([['lcan,1'], ['call,1'], ['lcan,1', 'call,1'], ['call,1', 'lcan,1'], ['yield']]))
        pos = sorted(r.choice([0, 0, len(body), r.randrange(len(body) + 1)]) for _ in sp)
        merged, j = [], 0
        for k in range(len(body) + 1):
            while j < len(sp) and pos[j] == k:
                # never after the last run: the runs must end
                merged.append(sp[j])
                j += 1
            if k < len(body):
                merged.append(body[k])
        last = max(i for i, x in enumerate(merged) if x == 'run')
        late = [x for x in merged[last + 1:] if x.startswith('spawn')]
        merged = [x for x in merged if x not in late]
        fr = next(i for i, x in enumerate(merged) if x == 'run')
        merged[fr:fr] = late
        # the finisher must be there before the first run
        f = sp[-1]
        merged.remove(f)
        fr = next(i for i, x in enumerate(merged) if x == 'run')
        merged.insert(r.randrange(fr + 1), f)
        end = (['tstop,1'] if any('timer' in x for x in pre) else []) + (['istop,1'] if any('idle' in x for x in pre) else []) + (['wdel,1'] if wat else [])
        t0 += merged + ['join,%d' % (1 + i) for i in range(cancellers + 1)] + end + ['lend,1']
        progs[0] = t0
        return progs, self.h

    def cthreads(self):
        r = self.r
        self.h = []
        n = r.choice([1, 1, 2, 3])
        progs = [[]]
        for i in range(1, n + 1):
            k = r.randrange(7)
            if k == 0:
                p = []
            elif k == 1:
                p = ['run']
            elif k == 2:
                p = ['wnew,%d' % i, 'call,%d' % i, 'run', 'wdel,%d' % i]
            elif k == 3:
                p = ['timer,%d,2' % i, 'run', 'tstop,%d' % i]
            elif k == 4:
                p = ['lcan,%d' % (10 + i), 'run'] if False else ['yield', 'run', 'yield']
            elif k == 5:
                p = ['idle,%d,2' % i, 'run', 'istop,%d' % i]
            else:
                p = ['yield']
            progs.append(p)
        helper = r.random() < 0.5
        ops = []
        ops += ['tnew,%d' % i for i in range(1, n + 1)]
        hp = []
        for i in range(1, n + 1):
            for _ in range(r.choice([0, 0, 1, 2])):
                (hp if helper and r.random() < 0.6 else ops).append('tcan,%d' % i)
        if hp:
            progs.append(hp)
            k = len(progs) - 1
            ops.insert(n, 'spawn,%d' % k)
            ops.append('join,%d' % k)
        if r.random() < 0.4:
            ops.append('quiet')
        dels = ['tdel,%d' % i for i in range(1, n + 1)]
        r.shuffle(dels)
        ops += dels
        if r.random() < 0.3:
            ops += ['tnew,1', 'tdel,1']
        progs[0] = ops
        return progs, self.h

    # ---- DNS: C16
    def dns(self):
        r = self.r
        self.h = []
        self.n = 0

        def req(i):
            self.n += 1
            name = r.choice(['n%d' % self.n, 'n%d' % self.n, 'x%d' % self.n, 'same'])
            port = r.choice([80, 443, 8000 + self.n, 65535])
            if r.random() < 0.1:
                name = r.choice('nvx') + str(self.n)
                return 'one,0,%s,%d' % (name, port) if r.random() < 0.5 else 'sync,0,%s,%d,%d' % (name, port, r.choice([0, 4, 6, 9]))
            return 'res,%d,%s,%d,%d' % (i, name, port, r.choice([0, 0, 4, 4, 4, 4, 6, 6, 9]))

        def ops(rs, n):
            out = []
            for _ in range(n):
                i = r.choice(rs)
                out.append(r.choice([req(i), req(i), req(i), 'dcan,%d' % i, 'dq,%d' % i, 'yield']))
            return out

        two = r.random() < 0.4
        rs1 = list(range(1, r.choice([1, 2, 3]) + 1))
        rs2 = [4, 5][:r.choice([1, 2])]
        dels = []

        def handlers(rs, deletable):
            for i in rs:
                for _ in range(r.choice([0, 0, 1, 2])):
                    b = ops(rs, r.choice([1, 1, 2]))
                    self.h.append(['ond,%d' % i] + b)
            if deletable and r.random() < 0.3 and len(rs) > 0:
                # the handler of one resolver destroys a resolver; nobody uses that one later
                i = r.choice(rs)
                v = r.choice(rs)
                return i, v
            return None
        handlers(rs1, False)
        t0 = ['loop,1'] + ['dnew,%d' % i for i in rs1]
        progs = [[]]
        runs = r.choice([1, 1, 2])
        body = ops(rs1, r.choice([1, 2, 3])) + ['run']
        if runs == 2:
            body += ops(rs1, r.choice([1, 2])) + ['run']
        progs.append(['quiet', 'lcan,1'] * runs)
        early = r.random() < 0.3
        if early:
            progs.append(['lcan,1'])
        sp = ['spawn,%d' % k for k in range(1, len(progs))]
        joins = ['join,%d' % k for k in range(1, len(progs))]
        t0 += sp
        tail = ops(rs1, r.choice([0, 0, 1, 2]))
        if two:
            handlers(rs2, False)
            progs.append(['dnew,%d' % i for i in rs2] + ops(rs2, r.choice([1, 2, 3])) + ['run'] + ops(rs2, r.choice([0, 1])) + ['ddel,%d' % i for i in rs2])
            k = len(progs) - 1
            t0.append('tnew,%d' % k)
            tail.append('tdel,%d' % k)
        self_del = None
        if not any(b[0] == 'ond,1' for b in self.h) and rs1 == [1] and r.random() < 0.5 and runs == 1:
            self.h.append(['ond,1', 'ddel,1'])
            self_del = 1
            t0 += [req(1), 'run']
            # whatever is left is destroyed by the handler, or it never ran
            t0 += joins + [x for x in tail if x.startswith('tdel')] + ['ddelif,1', 'lend,1']
        else:
            t0 += body + joins + tail + ['ddel,%d' % i for i in rs1] + ['lend,1']
        progs[0] = t0
        return progs, self.h


def schedules(rnd, n, depth=80):
    out = []
    for k in range(n):
        s = rnd.randrange(1 << 20)
        m = rnd.random()
        if m < 0.3:
            out.append(',rnd,%d,%d' % (s, rnd.choice([5, 10, 20, 50, 80, 100])))
        elif m < 0.6:
            out.append(',pct,%d,%d,%d' % (s, rnd.choice([1, 2, 3, 5]), rnd.choice([20, 40, depth])))
        else:
            pts = sorted(rnd.sample(range(1, depth), rnd.choice([1, 1, 2, 2, 3])))
            out.append(',pb,%d,%s' % (rnd.randrange(2), ','.join('%d,%d' % (p, rnd.randrange(5)) for p in pts)))
    return out


def run(c, kinds, nprog, nsched, fixed, exhaustive):
    exe = c.build_mt()
    scripts = []
    for _ in range(nprog):
        g = Gen(c.rnd)
        progs, hb = getattr(g, c.rnd.choice(kinds))()
        for s in schedules(c.rnd, nsched):
            scripts.append(join(s, progs, hb))
    # every schedule with one switch (thorough: a sample of those with two) from a run to completion, for fixed programs
    for progs, hb in fixed:
        n = len(progs) + 1
        for high in (0, 1):
            for p in range(1, exhaustive):
                for t in range(n):
                    scripts.append(join(',pb,%d,%d,%d' % (high, p, t), progs, hb))
            for _ in range(c.q(60, 1500)):
                p1, p2 = sorted(c.rnd.sample(range(1, exhaustive), 2))
                scripts.append(join(',pb,%d,%d,%d,%d,%d' % (high, p1, c.rnd.randrange(n), p2, c.rnd.randrange(n)), progs, hb))
    c.conform('drv_mt', exe, 'MtTrace', scripts, timeout=c.q(300, 3000))
    c.assumptions += ['sequentially consistent interleavings of synchronisation operations; weaker orders are covered by a happens-before race detector',
                      'epoll, eventfd, mutexes, condition variables, thread start/join and getaddrinfo are stand-ins with their documented behaviour; finite waits never time out']


def mod_scripts(progs, hists):
    """Histories of a design -> scripts: program text and the order of synchronisation operations."""
    out = []
    for prog, hist in hists:
        ts, hb = progs[prog - 1]
        out.append(join(',mod,' + ','.join('%d%s' % (t, k) for t, k in hist), ts, hb))
    return out


def progs_of(module, env):
    """The programs of a design model, as Python tuples."""
    src = open(os.path.join(vlib.SPECS, module + '.tla')).read()
    body = src[src.index('Progs == <<') + len('Progs == '):]
    body = body[:body.index('\n>>\n') + 3]
    return eval(re.sub(r'\w+ \|->', '', body).replace('<<', '(').replace('>>', ',)').replace('(,)', '()').replace('[', '(').replace(']', ')'), env)


def wake_programs():
    env = {'call': lambda w: 'call,%d' % w, 'wcan': lambda w: 'wcan,%d' % w, 'lcan': 'lcan,1', 'run': 'run', 'quiet': 'quiet'}
    res = []
    for ts, h in progs_of('WakeImpl', env):
        n = len(ts) - 1
        t0 = ['loop,1', 'wnew,1', 'wnew,2'] + ['spawn,%d' % i for i in range(1, n + 1)] + ['model'] + list(ts[0]) + ['join,%d' % i for i in range(1, n + 1)] + ['wdel,1', 'wdel,2', 'lend,1']
        hb = [['on,%d' % (w + 1)] + list(b) for w in range(2) for b in h[w]]
        res.append(([t0] + [list(x) for x in ts[1:]], hb))
    return res


P = lambda s: [x.split() for x in s.split('/')]

FIXED_C03 = [
    (P('loop,1 wnew,1 spawn,1 spawn,2 spawn,3 run join,1 join,2 join,3 wdel,1 lend,1 / call,1 / call,1 / quiet lcan,1'), []),
    (P('loop,1 wnew,1 wnew,2 spawn,1 spawn,2 spawn,3 run join,1 join,2 join,3 wdel,1 wdel,2 lend,1 / call,1 call,2 / call,2 / quiet lcan,1'), [['on,1', 'wcan,2'], ['on,2', 'wcan,1']]),
    (P('loop,1 wnew,1 spawn,1 spawn,2 run join,1 join,2 lend,1 / call,1 / quiet lcan,1'), [['on,1', 'wdel,1']]),
    (P('loop,1 wnew,1 wnew,2 call,2 spawn,1 spawn,2 run join,1 join,2 wdel,1 wdel,2 lend,1 / call,1 call,1 / quiet lcan,1'), [['on,2', 'wcan,1', 'call,2'], ['on,2', 'wcan,1']]),
]
FIXED_C04 = [
    (P('loop,1 spawn,1 spawn,2 run join,1 join,2 lend,1 / lcan,1 / quiet lcan,1'), []),
    (P('loop,1 wnew,1 spawn,1 spawn,2 run run join,1 join,2 wdel,1 lend,1 / call,1 lcan,1 / quiet lcan,1 quiet lcan,1'), []),
    (P('tnew,1 tcan,1 tdel,1 / run'), []),
    (P('tnew,1 tdel,1 / yield'), []),
    (P('tnew,1 tnew,2 spawn,3 tcan,2 join,3 tdel,1 tdel,2 / run / timer,2,2 run tstop,2 / tcan,1 tcan,2'), []),
]
FIXED_C16 = [
    (P('loop,1 dnew,1 spawn,1 res,1,a,80,4 one,0,v1,81 run sync,0,b,82,6 ddel,1 join,1 lend,1 / one,0,x1,83 quiet lcan,1'), [['ond,1', 'one,0,n1,84', 'sync,0,x2,85,0', 'sync,0,n3,86,9']]),
    (P('loop,1 dnew,1 dnew,2 spawn,1 res,1,a,80,9 res,2,b,80,4 run ddel,1 ddel,2 join,1 lend,1 / quiet lcan,1'), [['ond,1', 'res,1,c,80,9'], ['ond,2', 'res,2,d,80,6']]),
    (P('loop,1 dnew,1 dnew,2 spawn,1 res,1,a,80,4 res,2,b,81,0 run ddel,1 ddel,2 join,1 lend,1 / quiet lcan,1'), [['ond,1', 'res,1,c,82,6']]),
    (P('loop,1 dnew,1 res,1,a,80,4 yield dcan,1 dq,1 res,1,b,80,4 yield ddel,1 lend,1'), []),
    (P('loop,1 dnew,1 spawn,1 res,1,a,80,4 yield res,1,a,80,4 run ddel,1 join,1 lend,1 / quiet lcan,1'), []),
    (P('loop,1 dnew,1 spawn,1 res,1,a,80,4 run ddelif,1 join,1 lend,1 / quiet lcan,1'), [['ond,1', 'ddel,1']]),
    (P('loop,1 dnew,1 dnew,2 spawn,1 tnew,2 res,1,a,80,4 res,2,b,80,4 run tdel,2 ddel,1 ddel,2 join,1 lend,1 / quiet lcan,1 / dnew,4 res,4,c,80,0 run ddel,4'), [['ond,1', 'dcan,2']]),
]


def wake_conform(c):
    """The design model WakeImpl holds; each of its histories is replayed in the real code."""
    c.model('WakeImpl', 'WakeImpl.cfg')
    hists = c.scripts_from_model('WakeImpl', 'WakeImpl_s.cfg')
    c.conform('drv_mt', c.build_mt(), 'MtTrace', mod_scripts(wake_programs(), hists), timeout=c.q(300, 3000))


def dns_programs():
    env = {'rs': lambda r: ('res', r), 'dcan': lambda r: ('dcan', r), 'ddel': lambda r: ('ddel', r), 'run': ('run', 0)}

    def text(ops, k):
        out = []
        for i, (o, r) in enumerate(ops):
            out.append({'res': 'res,%d,%s%d,80,4' % (r, 'nx'[(k + i) % 5 == 4], k + i), 'run': 'run'}.get(o, '%s,%d' % (o, r)))
        return out
    res = []
    for m, h, early in progs_of('DnsImpl', env):
        t = [[], ['quiet', 'lcan,1'] * m.count(('run', 0))] + [['lcan,1']] * early
        t[0] = ['loop,1', 'dnew,1', 'dnew,2'] + ['spawn,%d' % i for i in range(1, len(t))] + ['model'] + text(m, 0) + ['join,%d' % i for i in range(1, len(t))] + ['lend,1']
        res.append((t, [['ond,%d' % (r + 1)] + text(b, 10 * (r + 1) + 3 * j) for r in range(2) for j, b in enumerate(h[r])]))
    return res


def dns_conform(c):
    c.model('DnsImpl', 'DnsImpl.cfg')
    hists = c.scripts_from_model('DnsImpl', 'DnsImpl_s.cfg', limit=c.q(6000, None))
    c.conform('drv_mt', c.build_mt(), 'MtTrace', mod_scripts(dns_programs(), hists), timeout=c.q(300, 3000))


def C03(c):
    wake_conform(c)
    run(c, ['watchers'], c.q(150, 1200), c.q(40, 100), FIXED_C03, c.q(70, 110))


def C04(c):
    wake_conform(c)
    run(c, ['cancels', 'cancels', 'cthreads'], c.q(200, 1200), c.q(40, 100), FIXED_C04, c.q(60, 100))


def C16(c):
    dns_conform(c)
    run(c, ['dns'], c.q(200, 1500), c.q(40, 100), FIXED_C16, c.q(70, 110))
