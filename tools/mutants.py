#!/usr/bin/env python3
"""Development aid: mutants.py FILE - each record {file, old, new, checks}; prints which checks notice."""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
recs = []
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
def one(i):
    r = recs[i]
    d = '/tmp/mut_%d_%d' % (os.getpid(), i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo/include', '/repo/src', d])
    p = d + '/include/crab/' + r[0]
    s = open(p).read()
    if s.count(r[1]) < 1:
        return i, 'NO MATCH'
    s = s.replace(r[1], r[2], 1)
    open(p, 'w').write(s)
    out = []
    for c in r[3].split():
        q = subprocess.run(['python3', '/verif/check.py', c], env=dict(os.environ, VERIF_REPO=d, VERIF_SCRATCH_EVIDENCE='1'), capture_output=True, text=True)
        first = [x for x in q.stdout.splitlines() if x.startswith('  ') or x.startswith('ERROR') or 'error' in x][:1]
        out.append('%s rc=%d %s' % (c, q.returncode, (first or [''])[0][:150]))
        if q.returncode == 1 and not os.environ.get('ALL'):
            break
    shutil.rmtree(d, ignore_errors=True)
    return i, ' | '.join(out)
with cf.ThreadPoolExecutor(3) as ex:
    for i, o in ex.map(one, [i for i in range(len(recs)) if not only or str(i) in only]):
        print(i, recs[i][0], repr(recs[i][1][:50]), '->', repr(recs[i][2][:50]), ':', o, flush=True)
