#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the list below and confirm each planted bug on /repo (build, stable tests, demo).
usage: mkseeds.py [--check] [ids]"""
import json, os, shutil, subprocess, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T); R = os.environ.get('SEED_REPO', '/repo')
S = {}
def seed(id, prop, needs, breaks, edits, demo, hook=False, lean=False): S[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, hook=hook, lean=lean)
exec(open(T + '/seeds.py').read())

def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh('git -C %s checkout -- .' % R)
def main():
    chk = '--check' in sys.argv; ids = [a for a in sys.argv[1:] if a[0] != '-'] or list(S)
    assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'repo not clean'
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    lock = open(T + '/demo.lock').read() if os.path.exists(T + '/demo.lock') else None
    for i in ids:
        s = S[i]; d = '%s/seeded/%s' % (V, i)
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s['edits']:
                p = R + '/' + f; t = open(p).read()
                assert t.count(old) == 1, (i, f, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = sh('git -C %s diff' % R).stdout
        finally: clean()
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/main.rs', 'w').write('mod common;\nuse common::*;\nuse octane::prelude::*;\n' + s['demo'].lstrip('\n'))
        shutil.copy(T + '/demo_common.rs', d + '/common.rs'); shutil.copy(T + '/demo.sh', d + '/demo.sh')
        shutil.copy(T + '/demo.lock', d + '/Cargo.lock')
        if s['hook']: open(d + '/hook', 'w').write('build with the hook to serve an in-memory connection\n')
        if s['lean']: open(d + '/lean', 'w').write('build without features\n')
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        if not chk: continue
        r0 = sh('bash %s/demo.sh' % d, cwd=R)
        try:
            assert sh('git -C %s apply %s/patch.diff' % (R, d)).returncode == 0
            b = sh('bash /opt/vp/build.sh')
            t = sh('bash /opt/vp/test.sh /tmp/seed.json') if b.returncode == 0 else None
            miss = stable - set(json.load(open('/tmp/seed.json'))['passed']) if t else 'BUILD FAILS ' + b.stdout[-1500:]
            r1 = sh('bash %s/demo.sh' % d, cwd=R)
        finally: clean()
        ok = r0.returncode == 0 and r1.returncode != 0 and not miss
        print(i, s['prop'], 'OK' if ok else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode, 'tests', miss if isinstance(miss, str) else sorted(miss)[:5], flush=True)
        print('    ', (r1.stdout.strip().split('\n') or [''])[-1][:200])
        if r0.returncode: print('   CLEAN:', r0.stdout[-1500:])
        if r1.returncode == 2: print('   PATCHED:', r1.stdout[-800:])
    clean()
    sh('bash /opt/vp/build.sh')
main()
