#!/usr/bin/env python3
"""runmut.py FILE [name...]: run the checks against breakages of FILE; says caught (with or without a failing input) or MISSED"""
import subprocess, sys, tempfile, shutil, os, time
ns = {}
exec(open(sys.argv[1]).read(), ns)
a = sys.argv[2:]
for n, (edits, cp) in ns['MUT'].items():
    if a and n not in a:
        continue
    w = tempfile.mkdtemp(prefix='mu', dir='/tmp')
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    for f, old, new in edits:
        p = w + '/r/' + f
        t = open(p).read()
        assert t.count(old) >= 1, (n, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new, 1))
    for c in cp.split():
        t0 = time.time()
        r = subprocess.run(['./check.py', '--property', c], cwd='/verif', env=dict(os.environ, VERIF_REPO=w + '/r'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o = r.stdout
        v = 'MISSED' if r.returncode == 0 else 'ERROR' if r.returncode != 1 else 'no-input' if 'no-failing-input-found' in o else 'input'
        first = next((x for x in o.splitlines() if x.startswith('failed')), '')
        inp = next((x for x in o.splitlines() if x.startswith('failing')), '')
        print('%-22s %s %-8s %4d s  %s | %s' % (n, c, v, time.time() - t0, first[:150], inp[:150]), flush=True)
    shutil.rmtree(w)
