#!/usr/bin/env python3
"""Regenerates MANIFEST.json: every property with a check function in lib/a_*.py is claimed."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(V + '/lib/a_*.py'):
    have |= set(re.findall(r'^def (C\d\d)\(', open(f).read(), re.M))
NA = {
    'C24': 'memory safety and undefined behaviour are below what a specification of observable behaviour can express; harnesses run under AddressSanitizer, so an observed memory error shows up as a crash event no specification accepts, but the property itself is not decided.',
    'C25': 'the kqueue, Windows, boost::asio, CoreFoundation, libev and TLS variants cannot be compiled here (no platform, no libraries), so no behaviour of theirs can be observed.',
}
TECH = 'TLA+ specification checked with TLC; its behaviours replayed in the real code and recorded executions validated against it'
NOTE = {}
exec(open(V + '/tools/notes.py').read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                       'technique': TECH, 'level': 'model_checking', 'level_note': NOTE.get(i, DEFAULT_NOTE)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the harness replaces libc calls at link time. See DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
