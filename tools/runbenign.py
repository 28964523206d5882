#!/usr/bin/env python3
"""runbenign.py FILE [-p C01,C02] [name...]: run the checks against behaviour-preserving edits"""
import subprocess, sys, tempfile, shutil, os
ns = {}
exec(open(sys.argv[1]).read(), ns)
a = sys.argv[2:]
props = None
if a[:1] == ['-p']:
    props = a[1].split(','); a = a[2:]
for n, edits in ns['BENIGN'].items():
    if a and n not in a:
        continue
    cp = ns['PROPS']
    if isinstance(edits, tuple):
        edits, cp = edits[0], edits[1].split()
    w = tempfile.mkdtemp(prefix='bn', dir='/tmp')
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    for f, old, new in edits:
        p = w + '/r/' + f
        t = open(p).read()
        assert t.count(old) >= 1, (n, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new, 1))
    out = []
    for c in props or cp:
        r = subprocess.run(['./check.py', '--property', c, '--norefute', '--limit', '150'], cwd='/verif', env=dict(os.environ, VERIF_REPO=w + '/r'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            out.append('%s rc=%d %s' % (c, r.returncode, ' / '.join(x[:220] for x in r.stdout.splitlines()[:2])))
    print('%-24s %s' % (n, 'quiet' if not out else '; '.join(out)), flush=True)
    shutil.rmtree(w)
