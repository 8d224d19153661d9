#!/usr/bin/env python3
"""Run the checks against the planted bugs: runseeds.py [--all] [ids]; --all runs every property, else the bug's own."""
import json, os, re, subprocess, sys, glob
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
ids = [a for a in sys.argv[1:] if a[0] != '-'] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + '/seeded/*/meta.json'))
res = {}
rf = V + '/seeded/results.json'
if os.path.exists(rf): res = json.load(open(rf))
assert not sh('git -C /repo status --porcelain').stdout.strip()
for i in ids:
    d = V + '/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    try:
        assert sh('git -C /repo apply %s/patch.diff' % d).returncode == 0
        r = sh('python3 %s/run.py %s' % (V, '--all' if '--all' in sys.argv else m['property']))
    finally: sh('git -C /repo checkout -- .')
    hits = sorted(set(re.findall(r'VIOLATION property=(\w+)', r.stdout)))
    bad = re.findall(r'(?:PROBLEM|NO-ANSWER|INCOMPLETE).*', r.stdout)
    print('%-26s %s %s %s' % (i, m['property'], 'CAUGHT' if m['property'] in hits else 'MISSED', ' '.join(hits)), *[b[:300] for b in bad[:3]], sep='\n     ' if bad else ' ', flush=True)
    first = re.search(r'^(\S+: .*)\nVIOLATION property=%s' % m['property'], r.stdout, re.M)
    if first: print('     ', first.group(1)[:200], flush=True)
    old = res.get(i, {})
    res[i] = dict(property=m['property'], caught_by=hits if '--all' in sys.argv else sorted(set(hits) | {h for h in old.get('caught_by', []) if h != m['property']}), by=first.group(1).split(': ')[0] if first else None)
    json.dump(res, open(rf, 'w'), indent=1, sort_keys=True)
