"""When an obligation fails: looks for an input on which the real code breaks the property.

Compiles the current sources with AddressSanitizer and harness/refute.cpp (which states every
property over concrete values, against an independent reference), and runs it with values taken
from the failed obligations' counterexamples and with random and boundary values, until an input
fails or the time is over.  It never decides a property: it only runs after an obligation has
failed, and only adds a failing input to the report."""
import os
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
import build

FLAGS = ['-std=gnu++17', '-include', 'cstdint', '-fno-access-control', '-w']
KINDS = {'asan': ['-O1', '-g', '-fsanitize=address'], 'fast': ['-O2']}


def compile_native(d):
    """-> {kind: executable}, errors"""
    jobs = [(k, f) for k in KINDS for f in [os.path.join(build.HERE, 'harness', 'refute.cpp')] + build.sources()]

    def one(job):
        kind, src = job
        out = os.path.join(d, 'n_%s_%s.o' % (kind, os.path.basename(src)))
        rc, o = build.run([build.CXX] + FLAGS + KINDS[kind] + ['-I' + build.REPO + '/includes', '-c', src, '-o', out])
        return kind, src, out, rc, o
    objs, errs, exes = {k: [] for k in KINDS}, [], {}
    with ThreadPoolExecutor(8) as ex:
        for kind, src, out, rc, o in ex.map(one, jobs):
            if rc:
                errs.append('%s: %s' % (src, o[-600:]))
            else:
                objs[kind].append(out)
    for kind in KINDS:
        exe = os.path.join(d, 'refute_' + kind)
        rc, o = build.run([build.CXX] + KINDS[kind] + objs[kind] + ['-o', exe, '-lgmpxx', '-lgmp', '-lcrypto'])
        if rc:
            errs.append('link: ' + o[-1500:])
        else:
            exes[kind] = exe
    return exes, errs


def literals():
    """the integer literals of the sources (rare ones first; tables left out)"""
    n = {}
    for root, _, fs in os.walk(build.REPO):
        if os.path.relpath(root, build.REPO).split(os.sep)[0] not in ('src', 'includes'):
            continue
        for f in fs:
            if f.endswith(('.cpp', '.hpp', '.h', '.c')):
                with open(os.path.join(root, f), errors='replace') as g:
                    vs = re.findall(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?=[uUlL]*(?![\w.]))', re.sub(r'//[^\n]*', '', g.read()))
                if len(vs) > 600:
                    continue
                for v in vs:
                    v = int(v, 16) if v[:2] in ('0x', '0X') else int(v)
                    if v > 4:
                        n[v] = n.get(v, 0) + 1
    usual = {6, 7, 8, 10, 16, 20, 32, 64, 128, 255, 256, 1024, 65535, 65536}
    return [str(v) for v in sorted(n, key=lambda v: (n[v], -v)) for i in range(1 if v in usual else 20)][:600]


def search(d, pid, pool, secs, jobs=8):
    """-> dict(failing=text, ...) | dict(cases=n) | dict(error=text)"""
    t0 = time.time()
    if secs < 40:
        return dict(error='no time left')
    exes, errs = compile_native(d)
    if not exes:
        return dict(error='\n'.join(errs))
    pf = os.path.join(d, 'pool.txt')
    with open(pf, 'w') as f:
        for v in list(dict.fromkeys(list(pool)[:3000])) + literals():
            f.write(v + '\n')
    left = int(secs - (time.time() - t0))
    if left < 5:
        return dict(error='no time left after compiling')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1')
    ps = []
    for i in range(jobs):
        o = open(os.path.join(d, 'refute.%d.out' % i), 'w+', errors='replace')
        kinds = sorted(exes)
        cmd = [exes[kinds[i // 2 % len(kinds)]], pid, str(seed * 100 + i), str(left)] + ([pf] if i % 2 == 0 else [])
        ps.append((cmd, o, subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT, env=env, cwd=d)))
    cases, hit = 0, None
    try:
        end = time.time() + left + (90 if pid == 'C15' else 15)     # a wrong aggregate searches for long
        run = list(ps)
        while run and hit is None and time.time() < end:
            for x in list(run):
                cmd, o, p = x
                if p.poll() is None:
                    continue
                run.remove(x)
                o.seek(0)
                txt = o.read()
                for l in txt.splitlines():
                    if l.startswith('FAILING '):
                        hit = dict(failing=l[8:], command=' '.join(['refute'] + cmd[1:4]), output=txt[-3000:])
                    if l.startswith('CASES '):
                        cases += int(l.split()[1])
                if hit:
                    break
            time.sleep(0.1)
    finally:
        for cmd, o, p in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
            o.close()
    if hit:
        return hit
    return dict(cases=cases, note='no failing input found', compile_errors=errs)
