"""Common machinery: build drivers from /repo, run scripts, check specifications with TLC, validate traces."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
HARNESS = os.path.join(VERIF, 'harness')
REPLAYS = os.path.join(VERIF, 'evidence', 'replays')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 4)


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


class CheckError(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return 124, out.decode('utf8', 'replace')
    return p.returncode, out.decode('utf8', 'replace')


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rnd = random.Random(self.seed * 1000003 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
        self.work = tempfile.mkdtemp(prefix='vp_%s_' % pid)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [],
                    'models': [], 'scripts_run': 0, 'distinct_traces': 0, 'events_validated': 0}
        self.assumptions = []
        self.violations = []   # (what, replay path)
        self.known = load_known(pid)
        self.known_hit = set()
        self.objs = {}
        os.makedirs(REPLAYS, exist_ok=True)

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- build
    def build(self, drivers, san=True, fk=True, opt='-O1', extra=[]):
        """drivers: names of harness/*.cpp; returns {name: exe}.  Compiles /repo's working tree."""
        flags = ['-std=gnu++17', opt, '-g0', '-DCRAB_COMPILE=1', '-I' + os.path.join(REPO, 'include'), '-I' + HARNESS, '-w'] + list(extra)
        if san:
            flags += ['-fsanitize=address']
        tag = ('a' if san else 'n') + opt + ''.join(extra)
        jobs = {'crab_' + tag: os.path.join(REPO, 'src/crab.cpp')}
        if fk:
            jobs['fk_' + tag] = os.path.join(HARNESS, 'fk.cpp')
        for d in drivers:
            jobs[d + '_' + tag] = os.path.join(HARNESS, d + '.cpp')
        jobs = {k: v for k, v in jobs.items() if k not in self.objs}

        def comp(kv):
            o = os.path.join(self.work, kv[0] + '.o')
            rc, out = sh(['g++'] + flags + ['-c', kv[1], '-o', o], timeout=300)
            return kv[0], o, rc, out
        with ThreadPoolExecutor(NCPU) as ex:
            for name, o, rc, out in ex.map(comp, jobs.items()):
                if rc:
                    raise CheckError('compiling %s failed:\n%s' % (name, out[-3000:]))
                self.objs[name] = o
        res = {}
        for d in drivers:
            exe = os.path.join(self.work, d + ''.join(extra))
            cmd = ['g++'] + [f for f in flags if f.startswith('-f')] + [self.objs[d + '_' + tag], self.objs['crab_' + tag]]
            if fk:
                cmd.append(self.objs['fk_' + tag])
            rc, out = sh(cmd + ['-o', exe, '-pthread', '-ldl'], timeout=300)
            if rc:
                raise CheckError('linking %s failed:\n%s' % (d, out[-3000:]))
            res[d] = exe
        return res

    def build_mt(self, driver='drv_mt'):
        """crab and the driver instrumented for the scheduler of harness/mt.cpp (which is not)."""
        base = ['-std=gnu++17', '-g0', '-DCRAB_COMPILE=1', '-I' + os.path.join(REPO, 'include'), '-I' + HARNESS, '-w', '-fno-omit-frame-pointer']
        jobs = [('crab_mt', ['-O1', '-fsanitize=thread'], os.path.join(REPO, 'src/crab.cpp')),
                (driver, ['-O1', '-fsanitize=thread'], os.path.join(HARNESS, driver + '.cpp')),
                ('mt', ['-O2', '-fno-threadsafe-statics'], os.path.join(HARNESS, 'mt.cpp'))]

        def comp(j):
            o = os.path.join(self.work, j[0] + '_mt.o')
            rc, out = sh(['g++'] + base + j[1] + ['-c', j[2], '-o', o], timeout=300)
            if rc:
                raise CheckError('compiling %s failed:\n%s' % (j[0], out[-3000:]))
            return o
        with ThreadPoolExecutor(3) as ex:
            objs = list(ex.map(comp, jobs))
        exe = os.path.join(self.work, driver)
        rc, out = sh(['g++'] + objs + ['-o', exe, '-pthread', '-ldl'], timeout=300)
        if rc:
            raise CheckError('linking %s failed:\n%s' % (driver, out[-3000:]))
        return exe

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, timeout, workers=NCPU, env=None, args=(), xmx='6g', cwd=None):
        md = tempfile.mkdtemp(dir=self.work)
        e = dict(os.environ)
        e.setdefault('DIAG', '0')
        e.setdefault('TRACES', '/dev/null')
        if env:
            e.update(env)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xmx' + xmx, '-Xss16m', '-cp', CP, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', md, '-noGenerateSpecTE', '-config', cfg] + list(args) + [module + '.tla']
        rc, out = sh(cmd, timeout=timeout, env=e, cwd=cwd or SPECS)
        shutil.rmtree(md, ignore_errors=True)
        return rc, out

    def model(self, module, cfg, timeout=600, must=True, args=()):
        """Exhaustive check of a specification; an error here is an error of the check (the spec does not depend on the code)."""
        rc, out = self._tlc(module, cfg, timeout, args=args)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if rc != 0 or not m:
            raise CheckError('model %s/%s: TLC rc=%d\n%s' % (module, cfg, rc, out[-4000:]))
        gen, dist = int(m.group(1)), int(m.group(2))
        self.cov['states'] += dist
        self.cov['transitions'] += gen
        self.cov['models'].append({'module': module, 'config': cfg, 'distinct_states': dist, 'states_generated': gen})
        return out

    def scripts_from_model(self, module, cfg, timeout=600, limit=None, args=(), model=True):
        """Every transition of the bounded state graph prints its history; returns the maximal histories."""
        rc, out = self._tlc(module, cfg, timeout, args=args)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if rc not in (0,) or not m:
            raise CheckError('script generation %s/%s: rc=%d\n%s' % (module, cfg, rc, out[-3000:]))
        if model:
            self.cov['states'] += int(m.group(2))
            self.cov['transitions'] += int(m.group(1))
            self.cov['models'].append({'module': module, 'config': cfg, 'distinct_states': int(m.group(2)), 'states_generated': int(m.group(1))})
        hs = set()
        for ln in out.splitlines():
            if ln.startswith('"['):
                hs.add(json.loads(ln))
        hs = [tup(json.loads(h)) for h in hs]
        pref = set()
        for h in hs:
            for k in range(len(h)):
                pref.add(h[:k])
        res = sorted((h for h in hs if h not in pref), key=repr)
        if limit and len(res) > limit:
            res = self.rnd.sample(res, limit)
        return res

    def simulate(self, module, cfg, num, depth, timeout=300, end='#'):
        """Random behaviours: the spec prints its history when it ends (POSTCONDITION-like print in a constraint)."""
        rc, out = self._tlc(module, cfg, timeout, workers=4, args=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(self.seed)])
        res = []
        for ln in out.splitlines():
            if ln.startswith('"['):
                res.append(json.loads(json.loads(ln)))
        return res

    # -------------------------------------------------------------- drivers
    def run(self, exe, scripts, timeout=300, env=None, par=NCPU):
        """Returns [(script, events)], events of a crashed script end with ["crash", what]."""
        f = os.path.join(self.work, 'scripts_%d.txt' % random.getrandbits(40))
        with open(f, 'w') as fh:
            for s in scripts:
                assert '\n' not in s
                fh.write(s + '\n')
        n = len(scripts)
        par = max(1, min(par, n))
        results = [None] * n
        deadline = time.time() + timeout

        total_crashes = [0]

        def worker(k):
            start = k
            crashes = 0
            while start < n:
                o = '%s.out%d_%d' % (f, k, start)
                left = deadline - time.time()
                if left <= 0:
                    return
                rc, out = sh([exe, f, o, str(start), str(par)], timeout=left, env=env)
                cur, ev, last = None, None, None
                if os.path.exists(o):
                    with open(o, errors='replace') as fh:
                        for ln in fh:
                            if ln.startswith('#B'):
                                cur, ev = int(ln[3:]), []
                            elif ln.startswith('#E'):
                                results[cur] = ev
                                last, cur = cur, None
                            elif ev is not None and ln.endswith('\n'):
                                try:
                                    ev.append(json.loads(ln))
                                except ValueError:
                                    ev.append(['garbled'])
                    os.unlink(o)
                if rc == 0 and cur is None:
                    return
                if rc == 124 and time.time() >= deadline:
                    return
                idx = cur if cur is not None else (start if last is None else last + par)
                if idx >= n:
                    return
                results[idx] = (ev if cur is not None else []) + [['crash', crash_reason(rc, out)]]
                crashes += 1
                total_crashes[0] += 1
                if crashes > 3 or total_crashes[0] > 10:
                    return
                start = idx + par
        with ThreadPoolExecutor(par) as ex:
            list(ex.map(worker, range(par)))
        os.unlink(f)
        res = [(scripts[i], results[i]) for i in range(n) if results[i] is not None]
        if not res:
            raise CheckError('driver %s produced nothing' % exe)
        self.cov['scripts_run'] += len(res)
        return res

    def validate(self, module, traces, timeout=600, chunk=200000, cfg='Trace.cfg'):
        """traces: list of event lists. Returns indices TLC rejects."""
        rejected = []
        groups, cur, size = [], [], 0
        for i, t in enumerate(traces):
            cur.append(i)
            size += len(t) + 1
            if size > chunk:
                groups.append(cur)
                cur, size = [], 0
        if cur:
            groups.append(cur)
        for g in groups:
            acc, _, out, rc = self._validate(module, [traces[i] for i in g], timeout, cfg)
            g = list(g)
            errors = 0
            while rc is None:
                # the specification cannot even be evaluated on a recording: that one is rejected, the others tried again
                m = re.findall(r'/\\ tid = (\d+)', out)
                k = int(m[-1]) - 1 if m else 0
                rejected.append(g[k])
                del g[k]
                errors += 1
                if errors >= 4 or not g:
                    g, acc = [], set()   # enough to report; the rest of this group is not counted as explored
                    break
                acc, _, out, rc = self._validate(module, [traces[i] for i in g], timeout, cfg)
            rejected += [g[j] for j in range(len(g)) if j + 1 not in acc]
        return sorted(rejected)

    def _validate(self, module, traces, timeout, cfg, diag=False, count=True):
        f = os.path.join(self.work, 'traces_%d.json' % random.getrandbits(40))
        with open(f, 'w') as fh:
            json.dump(traces, fh)
        rc, out = self._tlc(module, cfg, timeout, env={'TRACES': f, 'DIAG': '1' if diag else '0'})
        os.unlink(f)
        acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out))
        pos = {}
        for a, b in re.findall(r'<<"POS", (\d+), (\d+)>>', out):
            pos[int(a)] = max(pos.get(int(a), 0), int(b))
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if rc == 124 or (rc != 0 and 'Error:' in out and re.search(r'(Java heap|OutOfMemory|Parsing or semantic|could not|StackOverflow)', out)):
            raise CheckError('trace validation %s failed: rc=%d\n%s' % (module, rc, out[-3000:]))
        if rc != 0:
            return acc, pos, out, None
        if m and count:
            self.cov['states'] += int(m.group(2))
            self.cov['transitions'] += int(m.group(1))
            self.cov['events_validated'] += sum(len(t) for t in traces)
        return acc, pos, out, rc

    def where(self, module, trace, cfg='Trace.cfg'):
        acc, pos, out, rc = self._validate(module, [trace], 120, cfg, diag=True, count=False)
        return (1 in acc), pos.get(1, 0), out

    # ------------------------------------------------------- whole procedure
    def conform(self, name, exe, module, scripts, timeout=400, env=None, cfg='Trace.cfg', known=None, par=NCPU, post=None):
        """Run scripts in the real code, validate the recordings, confirm rejections, report."""
        res = self.run(exe, scripts, timeout=timeout, env=env, par=par)
        seen = {}
        for s, ev in res:
            if post:
                ev = post(ev)
            k = json.dumps(ev)
            if k not in seen:
                seen[k] = (s, ev)
        items = list(seen.values())
        self.cov['distinct_traces'] += len(items)
        kinds = self.cov.setdefault('event_kinds', {})
        for _, ev in items:
            for e in ev:
                kinds[e[0]] = kinds.get(e[0], 0) + 1
        for s, ev in sorted(items, key=lambda x: -len(x[1]))[:1]:
            self.cov['samples'].append({'driver': name, 'script': s[:600], 'events': ev[:60]})
        rej = self.validate(module, [ev for _, ev in items], timeout=timeout, cfg=cfg)
        self.cov['traces_validated_against_impl'] += len(items)
        reported = 0
        for j in rej:
            s, ev = items[j]
            # confirm: the same script must be rejected again
            r2 = self.run(exe, [s], timeout=120, env=env)
            ev2 = post(r2[0][1]) if post else r2[0][1]
            ok, pos, out = self.where(module, ev2, cfg)
            if ok:
                self.cov.setdefault('unconfirmed_rejections', 0)
                self.cov['unconfirmed_rejections'] += 1
                continue
            bad = ev2[pos - 1] if 0 < pos <= len(ev2) else None
            kf = self.match_known(name, s, ev2, pos, bad)
            if kf:
                self.known_hit.add(kf)
                continue
            self.violation('%s: %s rejects event %d %s' % (name, module, pos, json.dumps(bad)[:200]),
                           {'driver': name, 'script': s, 'trace': ev2, 'rejected_event_index': pos, 'rejected_event': bad,
                            'how': 'run the driver harness/%s.cpp on the script; validate with specs/%s.tla' % (name, module)})
            reported += 1
            if reported >= int(os.environ.get('VERIF_MAXREP', '3')):
                break
        return len(rej)

    def match_known(self, driver, script, ev, pos, bad):
        for k in self.known:
            if k.get('driver') == driver and k.get('script') == script and (k.get('event') is None or k.get('event') == bad):
                return k['id']
        return None

    def violation(self, what, replay):
        p = os.path.join(REPLAYS, '%s-%d.json' % (self.pid, len(self.violations) + 1))
        replay = dict(replay, property=self.pid, what=what)
        with open(p, 'w') as fh:
            json.dump(replay, fh, indent=1)
        self.violations.append((what, p))

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        for k in self.known:
            if k['id'] in self.known_hit:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        for what, p in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            print('  ' + what)
        print('%s: %s; %d model states, %d scripts, %d distinct traces validated, %.1f s' % (
            self.pid, 'VIOLATED' if self.violations else 'holds on everything explored', self.cov['states'], self.cov['scripts_run'],
            self.cov['distinct_traces'], time.time() - self.t0))
        return 1 if self.violations else 0


def crash_reason(rc, out):
    m = re.search(r'(AddressSanitizer: [^\n]*|runtime error: [^\n]*|fk: [^\n]*|terminate called[^\n]*\n[^\n]*)', out)
    return (m.group(1) if m else 'exit %d' % rc)[:160]


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == pid]


def main(pid, fn):
    c = Check(pid)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as ex:
        shutil.rmtree(c.work, ignore_errors=True)
        print('ERROR of the check %s: %s' % (pid, ex))
        rc = 2
    except BaseException:
        shutil.rmtree(c.work, ignore_errors=True)
        raise
    sys.stdout.flush()
    return rc
