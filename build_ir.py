#!/usr/bin/env python3
"""Compile the harness crate together with /repo's current source to LLVM IR for the symbolic executor."""
import os, re, subprocess, sys, glob, shutil, time, hashlib
VERIF = os.path.dirname(os.path.abspath(__file__))
TC = "stable-x86_64-unknown-linux-gnu"
SYSROOT = subprocess.check_output(["rustc", "+" + TC, "--print", "sysroot"], text=True).strip() if shutil.which("rustc") else "/root/.rustup/toolchains/" + TC
BIN = SYSROOT + "/lib/rustlib/x86_64-unknown-linux-gnu/bin"

CUT = [
    re.compile(r'4core4hash3sip.*(Hasher).*(5write|9write_str|6finish)'),
]
def is_cut(name):
    if re.search(r'4core4hash3sip', name) and re.search(r'6Hasher(5write|9write_str|6finish)', name):
        return True
    # these run code that does not panic
    if re.search(r'9panicking(12catch_unwind|9panicking|11panic_count)', name): return False
    if '4core9panicking' in name and 'panicking4Assert' not in name and '11AssertKind' not in name:
        return True
    return bool(re.search(r'(unwrap_failed|expect_failed|15slice_error_fail|slice_error_fail_rt|18handle_alloc_error|17capacity_overflow|12handle_error|alloc_error_handler|3std9panicking|17slice_index_fail|index_len_fail|index_order_fail|len_mismatch_fail|panic_already|7process5abort|10rust_panic|rust_begin_unwind|do_panic)', name)) and name.startswith(('_R', '_ZN', 'rust_', '__rust'))

def cut(text):
    """turn the bodies of selected runtime functions into declarations"""
    out = []; n = 0
    lines = iter(text.split('\n'))
    for l in lines:
        if l.startswith('define '):
            m = re.search(r'@("[^"]*"|[\w.$]+)\(', l)
            name = m.group(1).strip('"')
            if is_cut(name):
                # signature without personality etc.
                i = m.end() - 1; d = 0; j = i
                while True:
                    if l[j] == '(': d += 1
                    elif l[j] == ')':
                        d -= 1
                        if d == 0: break
                    j += 1
                head = l[len('define '):m.start()]
                head = re.sub(r'\b(internal|private|dso_local|hidden|weak_odr|linkonce_odr|available_externally|weak|linkonce|fastcc|protected)\b', '', head)
                params = re.sub(r'%("[^"]*"|[\w.]+)', '', l[i:j + 1])
                noret = ' noreturn' if 'finish' not in name and 'write' not in name else ''
                out.append('declare ' + head.strip() + ' @' + m.group(1) + params + noret)
                n += 1
                for l2 in lines:
                    if l2 == '}': break
                continue
            if 'HashSetcE3getcE' in name or 'HashSetcE8containscE' in name:
                # its paths are merged by the engine, so it has to stay a function
                l = re.sub(r'\)( (?:unnamed_addr|local_unnamed_addr))?(?= [^()]*\{$)', lambda m: ')' + (m.group(1) or '') + ' noinline', l)
        out.append(l)
    return '\n'.join(out), n

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:] + '\n')
        raise SystemExit("command failed: " + ' '.join(cmd)[:300])
    return r.stdout

def build(crate, out_ll, entries, target, features=(), default_features=True, lib=None):
    lib = lib or os.path.basename(crate)
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TC, RUSTFLAGS="--cfg octane_verif -C save-temps", CARGO_TARGET_DIR=target)
    env.pop('CARGO_ENCODED_RUSTFLAGS', None)
    cmd = ["cargo", "rustc", "--offline", "--lib", "--crate-type", "staticlib", "--profile", "sym"]
    if features: cmd += ["--features", ','.join(features)]
    if not default_features: cmd += ["--no-default-features"]
    for f in glob.glob(target + '/sym/deps/*.bc'): os.remove(f)
    for f in glob.glob(target + '/sym/deps/' + lib + '-*'): os.remove(f)
    for f in glob.glob(target + '/sym/deps/lib' + lib + '-*'): os.remove(f)
    sh(cmd, cwd=crate, env=env)
    bcs = glob.glob(target + '/sym/deps/%s-*.lto.after-restriction.bc' % lib)
    if len(bcs) != 1: raise SystemExit("expected one LTO bitcode file, got %r" % bcs)
    w = out_ll + '.work'
    sh([BIN + "/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ','.join(entries), bcs[0], "-S", "-o", w + '1.ll'])
    text, n = cut(open(w + '1.ll').read())
    open(w + '2.ll', 'w').write(text)
    sh([BIN + "/opt", "-passes=default<O2>,globaldce", "-strip-debug", "-vectorize-loops=false", "-vectorize-slp=false", w + '2.ll', "-S", "-o", out_ll])
    if os.environ.get("KEEP"): return n
    for f in (w + '1.ll', w + '2.ll'): os.remove(f)
    for f in glob.glob(target + '/sym/deps/*.bc'): os.remove(f)
    return n

if __name__ == '__main__':
    t = time.time()
    n = build(sys.argv[1], sys.argv[2], sys.argv[3].split(','), sys.argv[4], lib=sys.argv[5] if len(sys.argv) > 5 else None)
    print("cut", n, "time", time.time() - t)
