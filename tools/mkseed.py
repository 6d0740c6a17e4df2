#!/usr/bin/env python3
"""mkseed.py FILE: FILE defines seeds = [(id, property, file, [(old, new)...] | file->list dict, demo_cpp, needs, breaks)].
Writes /verif/seeded/<id>/ and confirms patch and demonstration in a scratch copy."""
import os, shutil, subprocess, sys, json
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
SH = '''#!/bin/bash
# run in the repository's directory; compiles against its sources
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -w -DCRAB_COMPILE=1 -I include "$here/demo.cpp" src/crab.cpp -o "$t/demo" -pthread || exit 3
cd "$t" && timeout 100 ./demo
'''
for (sid, prop, edits, demo, needs, breaks) in seeds:
    if only and sid not in only: continue
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    w = '/tmp/seedwork'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.check_call('git -C /repo archive HEAD | tar -x -C ' + w, shell=True)
    subprocess.check_call('git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x', shell=True, cwd=w)
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r0 = subprocess.run([d + '/demo.sh'], cwd=w, capture_output=True, text=True)
    for f, old, new in edits:
        p = w + '/include/crab/' + f
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    r1 = subprocess.run([d + '/demo.sh'], cwd=w, capture_output=True, text=True)
    ok = r0.returncode == 0 and r1.returncode not in (0, 3)
    print(sid, prop, 'ok' if ok else 'BAD', r0.returncode, r1.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else '', (r1.stdout + r1.stderr)[-200:], flush=True)
    shutil.rmtree(w, ignore_errors=True)
