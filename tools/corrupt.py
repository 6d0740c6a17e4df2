#!/usr/bin/env python3
"""corrupt.py Cxx [n]: how much of a recording does the specification decide?
Records executions as the check does, changes one field of one event (or removes or doubles the event)
and counts, per kind of event and field, how many of the changed recordings are rejected."""
import sys, os, json, random, copy, re, collections
sys.path.insert(0, '/verif/lib')
os.environ['VERIF_SCRATCH_EVIDENCE'] = '1'
import vlib, importlib, glob
pid, N = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 10
r = random.Random(int(os.environ.get('VERIF_SEED', '1')))

def leaves(x, path=()):
    if isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
        yield (path, 'len')
    else:
        yield (path, 'val')

def generic(path, kind, depth=3):
    return '.'.join(str(p) if i < 2 and p < 25 else '*' for i, p in enumerate(path)) + ('#' if kind == 'len' else '')

def change(ev, path, kind):
    ev = copy.deepcopy(ev)
    if not path:
        return None
    x = ev
    for p in path[:-1]:
        x = x[p]
    p = path[-1]
    if kind == 'len':
        y = x[p]
        if y and (r.random() < .5 or not all(isinstance(z, int) for z in y)):
            y.pop(r.randrange(len(y)))
        elif all(isinstance(z, int) and not isinstance(z, bool) for z in y):
            y.append(7)
        else:
            return None
        return ev
    v = x[p]
    if isinstance(v, bool):
        x[p] = not v
    elif isinstance(v, int):
        x[p] = v + r.choice([1, -1, 2]) if v > 0 else v + 1
    elif isinstance(v, str):
        return None
    else:
        return None
    return ev

def conform(self, name, exe, module, scripts, timeout=400, env=None, cfg='Trace.cfg', known=None, par=8, post=None):
    scripts = list(scripts)
    r.shuffle(scripts)
    res = self.run(exe, scripts[:int(os.environ.get("SCRIPTS","150"))], timeout=timeout, env=env, par=par)
    items, seen = [], set()
    for s, ev in res:
        if post:
            ev = post(ev)
        k = json.dumps(ev)
        if k not in seen and len(ev) < 400:
            seen.add(k)
            items.append(ev)
    places = collections.defaultdict(list)
    for t, ev in enumerate(items):
        for i, e in enumerate(ev):
            places[(e[0], 'DEL')].append((t, i, None))
            places[(e[0], 'DUP')].append((t, i, None))
            for path, kind in leaves(e):
                if path:
                    places[(e[0], generic(path, kind))].append((t, i, (path, kind)))
    cases = []
    for key, l in sorted(places.items()):
        r.shuffle(l)
        n = 0
        for t, i, w in l:
            if n >= N:
                break
            ev = list(items[t])
            if key[1] == 'DEL':
                del ev[i]
            elif key[1] == 'DUP':
                ev.insert(i, ev[i])
            else:
                e = change(ev[i], *w)
                if e is None:
                    continue
                ev[i] = e
            cases.append((key, ev, i))
            n += 1
    rej = collections.Counter(); tot = collections.Counter(); ex = {}
    ok = self.validate(module, items, cfg=cfg)
    step = 400
    r.shuffle(cases)
    for a in range(0, len(cases), step):
        g = list(range(a, min(a + step, len(cases))))
        dead = set()
        while True:
            live = [j for j in g if j not in dead]
            acc, _, out, rc = self._validate(module, [cases[j][1] for j in live], 600, cfg)
            if rc is not None:
                break
            m = re.findall(r'/\\ tid = (\d+)', out)
            dead.add(live[int(m[-1]) - 1 if m else 0])
            if len(live) <= 1:
                acc = set()
                break
        live = [j for j in g if j not in dead]
        accs = {live[k - 1] for k in acc if k <= len(live)}
        for j in g:
            key = cases[j][0]
            tot[key] += 1
            if j not in accs:
                rej[key] += 1
            else:
                ex[key] = (cases[j][1][max(0, cases[j][2] - 1):cases[j][2] + 2])
    print('== %s %s: %d recordings, %d rejected unchanged, %d changed, %d rejected' % (name, module, len(items), len(ok), len(cases), sum(rej.values())))
    for key in sorted(tot):
        if rej[key] * 2 < tot[key]:
            print('  %-10s %-8s %d/%d  %s' % (key[0], key[1], rej[key], tot[key], json.dumps(ex.get(key))[:160]))
    sys.stdout.flush()
    return 0

vlib.Check.conform = conform
vlib.Check.model = lambda self, *a, **k: None
orig = vlib.Check.scripts_from_model
vlib.Check.scripts_from_model = lambda self, module, cfg, limit=None, **k: orig(self, module, cfg, limit=40, **k)
sys.argv = ['check.py', pid]
src = open('/verif/check.py').read()
exec(compile(src, '/verif/check.py', 'exec'))
