#!/usr/bin/env python3
"""benigncheck.py FILE: every edit applies and compiles"""
import sys, subprocess, tempfile, shutil, glob, os
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)


def one(x):
    n, v = x
    e = v[0] if isinstance(v, tuple) else v
    w = tempfile.mkdtemp(prefix='bc', dir='/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        for f, old, new in e:
            t = open(w + '/r/' + f).read()
            if t.count(old) < 1:
                return n, 'NO MATCH ' + f + old[:60]
            open(w + '/r/' + f, 'w').write(t.replace(old, new, 1))
        cs = [f for f in glob.glob(w + '/r/src/*/*.cpp') if os.path.getsize(f)]
        if not any('includes' in f for f, _, _ in e):
            cs = [c for c in cs if c[len(w) + 3:] in {f for f, _, _ in e}]
        for c in cs:
            r = subprocess.run(['clang++', '-std=gnu++17', '-include', 'cstdint', '-w', '-fsyntax-only', '-I' + w + '/r/includes', c], stderr=subprocess.PIPE, text=True)
            if r.returncode:
                return n, r.stderr[:500]
        return n, None
    finally:
        shutil.rmtree(w)


for n, r in ThreadPoolExecutor(6).map(one, ns['BENIGN'].items()):
    if r:
        print(n, r)
