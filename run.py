#!/usr/bin/env python3
"""Decide properties of /repo by symbolic execution of its compiled LLVM IR.

  run.py C04 [C05 ...] [--tier quick|thorough]   decide (exit 0 held, 1 violated, 2 no answer)
  run.py --all                                   every claimed property, one IR build
  run.py --setup                                 build the engine and warm the build directories
  run.py --replay FILE                           run one counterexample natively and show it
"""
import json, os, re, resource, shutil, subprocess, sys, time, glob, fcntl
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build_ir
from props import PROPS
BUILD = VERIF + '/build'
# crates with harnesses: the server with its optional features, without, and with the listener
CRATES = {'full': (VERIF + '/harness', 'octane_harness', ''), 'lean': (VERIF + '/lean', 'octane_lean', '-lean'),
          'net': (VERIF + '/net', 'octane_net', '-net')}
def crate_of(pid): return PROPS[pid].get('crate', 'full')
SYMEX = VERIF + '/engine/target/release/symex'
EVID = VERIF + '/evidence'
THREADS = min(8, os.cpu_count() or 8)

class NoAnswer(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise NoAnswer('%s failed:\n%s' % (' '.join(cmd)[:200], r.stdout[-5000:]))
    return r.stdout

def cargo_env(target):
    e = dict(os.environ, RUSTUP_TOOLCHAIN=build_ir.TC, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=target, CARGO_TERM_COLOR='never')
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'): e.pop(k, None)
    return e

def ensure_engine():
    newest = max(os.path.getmtime(f) for f in glob.glob(VERIF + '/engine/src/*.rs') + [VERIF + '/engine/Cargo.toml'])
    if not os.path.exists(SYMEX) or os.path.getmtime(SYMEX) < newest:
        sh(['cargo', 'build', '--release', '--offline'], cwd=VERIF + '/engine', env=cargo_env(VERIF + '/engine/target'))

def forget(target, profile):
    """make cargo recompile everything that comes from /repo or /verif, whatever the file times say"""
    for f in glob.glob('%s/%s/.fingerprint/octane*' % (target, profile)): shutil.rmtree(f, ignore_errors=True)

def native_start(crate):
    """compile the harness natively (used to replay counterexamples and sampled paths)"""
    t = BUILD + '/native' + CRATES[crate][2]
    forget(t, 'debug')
    env = cargo_env(t); env['RUSTFLAGS'] = '--cfg octane_verif'
    return subprocess.Popen(['cargo', 'build', '--offline', '--bin', 'replay', '--features', 'native'], cwd=CRATES[crate][0], env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def native_finish(p, crate):
    out, _ = p.communicate()
    if p.returncode: raise NoAnswer('native build failed:\n' + out[-5000:])
    return BUILD + '/native%s/debug/replay' % CRATES[crate][2]

def limit():
    resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def native_run(exe, path, timeout=20):
    scratch = path + '.scratch'
    os.makedirs(scratch, exist_ok=True)
    try:
        r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=limit, cwd=scratch,
                           env=dict(os.environ, RUST_BACKTRACE='0'))
        return r.returncode, r.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, 'timeout'
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def write_case(path, entry, v):
    with open(path, 'w') as f:
        f.write('entry %s\n' % entry.replace(':', ' '))
        if v['kind'] != 'sample': f.write('# %s: %s\n# stack: %s\n' % (v['kind'], v['msg'], ' < '.join(v['stack'][:8])))
        for n, vals in v['inputs']:
            f.write('input %s %s\n' % (n, ' '.join(map(str, vals))))
        for n in v['notes']: f.write('note %s\n' % n)

FAIL = {41: 'assertion failed', 101: 'panic', 134: 'abort', -6: 'abort', -11: 'segmentation fault', 124: 'no end', -9: 'killed'}

def demangle(names):
    out = set()
    for n in names:
        m = re.findall(r'\d+([a-z_][A-Za-z0-9_]*)', re.sub(r'Cs[A-Za-z0-9]+_', '', n))
        segs = re.split(r'Cs[A-Za-z0-9]+_', n)
        if 'octane' in n and 'octane_harness' not in n.split('octane')[0]:
            parts = []
            i = 0
            s = n
            while i < len(s):
                mm = re.match(r'(\d+)_?', s[i:])
                if mm and s[i] != '0':
                    k = int(mm.group(1)); j = i + mm.end()
                    w = s[j:j + k]
                    if re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', w) and len(w) == k:
                        parts.append(w); i = j + k; continue
                i += 1
            if 'octane' in parts or 'octane_http' in parts:
                k = min(parts.index(x) for x in ('octane', 'octane_http') if x in parts)
                p = [x for x in parts[k:] if not x.startswith('octane_harness')]
                out.add('::'.join(p[:4]))
    return sorted(out)

def cross_check(dirname, deadline):
    """re-decide dumped queries with a second solver"""
    n = bad = 0; unknown = 0
    for f in sorted(glob.glob(dirname + '/*.smt2')):
        if time.time() > deadline: break
        want = re.search(r':status (\w+)', open(f).read()).group(1)
        r = subprocess.run(['cvc5', '--tlimit=20000', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout.strip().split('\n')[0]
        if r not in ('sat', 'unsat'): unknown += 1
        elif r != want: bad += 1
        else: n += 1
    return n, bad, unknown

def load_known():
    k = []
    p = VERIF + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: '):
                k.append(dict(re.findall(r'(\w+)=("[^"]*"|\S+)', l[7:])))
                k[-1]['text'] = l[7:].strip()
    return k

def is_known(known, pid, entry, v):
    for k in known:
        if k.get('property') == pid and k.get('entry') == entry and k.get('msg', '').strip('"') == v['msg']:
            ins = json.dumps(v['inputs'])
            if k.get('inputs', '""').strip('"') in ins: return k
    return None

def decide(pid, tier, ll, native, seed):
    P = PROPS[pid]
    t0 = time.time()
    entries = P['quick'] if tier == 'quick' else P.get('thorough', P['quick'])
    known = load_known()
    tot = dict(paths=0, pruned=0, forks=0, instructions=0, queries=0, sat=0, unsat=0, assert_queries=0, byte_domain_decisions=0, cache_hits=0)
    solver_s = 0.0; longest = 0.0
    covers = {}; asserts = {}; funcs = set(); runs = []; samples = []
    confirmed = []; unconfirmed = []; knownhits = {}; problems = []; incomplete = []
    work = BUILD + '/work-%s' % pid
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    replaydir = EVID + '/replay'; os.makedirs(replaydir, exist_ok=True)
    for f in glob.glob(replaydir + '/%s-*' % pid):
        os.remove(f) if os.path.isfile(f) else shutil.rmtree(f)
    exe = None
    validated = 0
    cc = [0, 0, 0]
    budget = 760 if tier == 'quick' else 4 * 3600
    for ent in entries:
        entry = ent if isinstance(ent, str) else ent[0]
        out = work + '/out.json'
        cmd = [SYMEX, ll, entry, '--threads', str(THREADS), '--out', out, '--samples', '6', '--time-limit', str(max(5, int(budget - (time.time() - t0))))]
        if not P.get('domain'): cmd.append('--no-domain')
        cmd += P.get('opts', []) + os.environ.get('SYMEX_OPTS', '').split()
        dump = work + '/smt'
        if tier == 'thorough':
            shutil.rmtree(dump, ignore_errors=True); os.makedirs(dump)
            cmd += ['--dump', dump, '40', '--timeout-ms', '300000']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode not in (0, 1, 2) or not os.path.exists(out):
            problems.append('%s: engine died (%s): %s' % (entry, r.returncode, r.stdout[-2000:])); continue
        j = json.load(open(out)); os.remove(out)
        for k in tot: tot[k] += j[k]
        solver_s += j['solver_seconds']; longest = max(longest, j['longest_query_seconds'])
        for k, v in j['covers'].items(): covers[k] = covers.get(k, 0) + v
        for k, v in j['asserts'].items(): asserts[k] = asserts.get(k, 0) + v
        funcs.update(j['functions'])
        runs.append(dict(entry=entry, paths=j['paths'], queries=j['queries'], solver_seconds=j['solver_seconds'], wall_seconds=j['wall_seconds'], longest_path=j['longest_path'], symbolic_variables=j['max_symbolic_variables']))
        if os.environ.get('VERBOSE'): print('  ', runs[-1], file=sys.stderr, flush=True)
        for e in j['errors']: incomplete.append('%s: %s' % (entry, e))
        if exe is None: exe = native_finish(native, crate_of(pid)) if not isinstance(native, str) else native
        native = exe
        if tier == 'thorough':
            a, b, c = cross_check(dump, time.time() + 120)
            cc[0] += a; cc[1] += b; cc[2] += c
            if b: problems.append('%s: a second solver disagrees on %d queries' % (entry, b))
        # counterexamples, replayed on the real code
        done = set()
        vs = sorted(j['violations'], key=lambda v: sum(len(x[1]) for x in v['inputs']))
        for i, v in enumerate(vs):
            k = is_known(known, pid, entry, v)
            if k: knownhits[k['text']] = 1; continue
            if v['msg'] in done or len(confirmed) >= 6: continue
            path = '%s/%s-%s-%d.txt' % (replaydir, pid, entry.replace(':', '_'), i)
            write_case(path, entry, v)
            tries = 1 if P.get('deterministic') else 60
            for n in range(tries):
                rc, o = native_run(exe, path)
                if rc in FAIL: break
                if rc in (77, 78): break
            if rc in FAIL:
                confirmed.append((path, entry, v, rc, o)); done.add(v['msg'])
                with open(path, 'a') as f: f.write('# native replay: %s\n' % FAIL[rc] + ''.join('# ' + l + '\n' for l in o.strip().split('\n')[-12:]))
            else:
                unconfirmed.append((path, entry, v, rc, o))
        # sampled paths, replayed on the real code: the symbolic run and the native one must agree
        for i, v in enumerate(j['samples']):
            path = '%s/s%d.txt' % (work, i)
            write_case(path, entry, v)
            rc, o = native_run(exe, path)
            notes = re.findall(r'^note (.*) = (\d+)$', o, re.M)
            if rc == 0:
                if ['%s=%s' % n for n in notes] == v['notes']: validated += 1
                else: problems.append('%s: native run of a path observes %s, the symbolic run %s (inputs %s)' % (entry, notes, v['notes'], v['inputs']))
                if i < 1: samples.append({'entry': entry, 'inputs': {n: vals for n, vals in v['inputs']}, 'observed': v['notes']})
            elif rc in FAIL:
                if len(confirmed) >= 6: continue
                dst = '%s/%s-%s-s%d.txt' % (replaydir, pid, entry.replace(':', '_'), i)
                shutil.copy(path, dst); confirmed.append((dst, entry, dict(v, msg=o[-300:], kind='native'), rc, o))
            else: problems.append('%s: native replay of a path diverged: %s' % (entry, o[-300:]))
        if confirmed and tier == 'quick': break
    missing = [c for c in P.get('covers', []) if not covers.get(c)]
    if missing and not confirmed: problems.append('the harness no longer reaches: %s' % missing)
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level=P['level'], wall_s=round(wall, 2), violations=len(confirmed),
              assumptions=P['assumptions'] + COMMON_ASSUMPTIONS,
              coverage=dict(states=tot['paths'], transitions=tot['forks'] + tot['byte_domain_decisions'] + tot['queries'],
                            traces_validated_against_impl=validated + len(confirmed),
                            samples=samples[:8] or [dict(note='no complete path')],
                            exhaustive=not problems and not incomplete, not_explored=incomplete[:20],
                            rule='states: feasible symbolic paths of the harness through the real code, each standing for every input that satisfies its path condition; transitions: branch decisions settled (solver queries, byte-domain decisions and forks)',
                            pruned_by_assumptions=tot['pruned'], instructions=tot['instructions'],
                            solver_queries=tot['queries'], sat=tot['sat'], unsat=tot['unsat'], query_cache_hits=tot['cache_hits'],
                            byte_domain_decisions=tot['byte_domain_decisions'], assertions_decided_by_solver=tot['assert_queries'],
                            solver_seconds=round(solver_s, 3), longest_query_seconds=longest,
                            queries_confirmed_by_second_solver=cc[0], second_solver_gave_no_answer=cc[2],
                            assertions=asserts, covers=covers, runs=runs, bounds=P['bounds'], outside_the_bounds=P['outside'],
                            functions_encoded=demangle(funcs), function_count=len(funcs)))
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open('%s/%s.json' % (EVID, pid), 'w'), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for k in knownhits: print('KNOWN-FINDING: %s' % k)
    for path, entry, v, rc, o in confirmed:
        print('%s: %s (%s; native replay: %s)' % (entry, v['msg'], v['kind'], FAIL[rc]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if confirmed: return 1, native
    for path, entry, v, rc, o in unconfirmed:
        problems.append('%s: counterexample for "%s" is not confirmed by the native run (%s, exit %s): %s' % (entry, v['msg'], path, rc, o[-400:]))
    for p in incomplete[:20]: print('INCOMPLETE %s: %s' % (pid, p))
    for p in problems: print('PROBLEM %s: %s' % (pid, p))
    print('%s %s: %s, %d paths, %d queries, %.1f s solver, %d paths validated natively, %.1f s' % (pid, tier, 'no answer' if problems else 'held on what was explored' if incomplete else 'held', tot['paths'], tot['queries'], solver_s, validated, wall), flush=True)
    return (2 if problems else 0), native

COMMON_ASSUMPTIONS = [
    'the LLVM IR rustc 1.99.1 produces for /repo, its dependencies and std (opt -O2, panic=abort, overflow checks on) is what is executed; the interpreter /verif/engine and Z3 are trusted, sampled paths and every counterexample are replayed on a native build',
    'HashMap hashing is replaced by an uninterpreted injective hash whose order of values is one of four fixed schemes (increasing, decreasing, scattered, all equal)',
    'allocation never fails below 256 MB',
]

def build(crate, pids):
    os.makedirs(BUILD, exist_ok=True)
    ensure_engine()
    native = native_start(crate)
    src, lib, suffix = CRATES[crate]
    names = set()
    for p in pids:
        for e in PROPS[p]['quick'] + PROPS[p].get('thorough', []): names.add(e.split(':')[0])
    ll = BUILD + '/%s.ll' % ('all' + suffix if len(pids) > 1 else pids[0])
    forget(BUILD + '/sym' + suffix, 'sym')
    build_ir.build(src, ll, sorted(names), BUILD + '/sym' + suffix, lib=lib)
    return ll, native

def main():
    av = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in av:
        i = av.index('--tier'); tier = av[i + 1]; del av[i:i + 2]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    if av and av[0] == '--replay':
        m = re.search(r'^entry c(\d+)_', open(av[1]).read(), re.M)
        crate = crate_of('C' + m.group(1))
        exe = native_finish(native_start(crate), crate)
        rc, o = native_run(exe, os.path.abspath(av[1]))
        print(o); print('exit', rc, FAIL.get(rc, '')); return 0
    os.makedirs(BUILD, exist_ok=True)
    lock = open(BUILD + '/.lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    pids = sorted(PROPS) if av and av[0] in ('--all', '--setup') else [a for a in av if not a.startswith('-')]
    try:
        t = time.time()
        rc = 0
        for crate in CRATES:
            mine = [p for p in pids if crate_of(p) == crate]
            if not mine: continue
            ll, native = build(crate, mine)
            if av[0] == "--setup": native, mine = native_finish(native, crate), []
            for p in mine:
                r, native = decide(p, tier, ll, native, seed)
                rc = 1 if 1 in (r, rc) else max(r, rc)
            if not isinstance(native, str): native.communicate()
            os.remove(ll)
        if av[0] == '--setup': print('setup done in %.1f s' % (time.time() - t))
        return rc
    except (NoAnswer, SystemExit) as e:
        if isinstance(e, SystemExit) and isinstance(e.code, int): raise
        print('NO-ANSWER', e); return 2

if __name__ == '__main__': sys.exit(main())
