#!/usr/bin/env python3
"""mkseed.py FILE: FILE defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ main body)]"""
import json, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
SH = '''#!/bin/bash
# exit 0: the property holds for the inputs of demo.cpp; run with cwd /repo after the build
h=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=gnu++17 -O1 -g %s-include cstdint -w -Iincludes "$h/demo.cpp" src/*/*.cpp -lgmpxx -lgmp -lcrypto -o "$t/demo" || exit 3
timeout 250 "$t/demo"
'''
PRE = '''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <tuple>
#include <algorithm>
#include <stdexcept>
#include <gmpxx.h>
#define private public
#define protected public
%s
#define CHECK(c) do { if(!(c)) { printf("FAILED: %%s\\n", #c); exit(1); } } while(0)
%s
int main()
{
%s
    printf("ok\\n");
    return 0;
}
'''
INC = ['ecc_secp256r1.hpp', 'ecc_bn254.hpp', 'dme.hpp', 'dmhe.hpp', 'ot.hpp', 'dot.hpp', 'puda.hpp', 'shamirss.hpp', 'utilities.hpp', 'aes.hpp', 'opprf.hpp']
for s in ns['SEEDS']:
    if only and s['id'] not in only:
        continue
    d = '/verif/seeded/' + s['id']
    shutil.rmtree(d, True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix='mk', dir='/tmp')
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    for f, old, new in s['edits']:
        p = w + '/r/' + f
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
    shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(diff)
    inc = '\n'.join('#include "%s"' % i for i in s.get('inc', INC))
    open(d + '/demo.cpp', 'w').write(PRE % (inc, s.get('pre', ''), s['demo']))
    open(d + '/demo.sh', 'w').write(SH % ('-fsanitize=address -fno-sanitize-recover ' if s.get('asan') else ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print(s['id'])
