#!/usr/bin/env python3-vt
"""Runs every registered task in parallel (development aid): alltasks.py [REGEX] ; prints slow and failing ones"""
import sys, os, re, time, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check, tempfile, multiprocessing as mp, llvmc, build


d = build.scratch(); check.MOD = llvmc.Module(build.module(d)[0])
import tasks, tasks_all
rx = re.compile(sys.argv[1] if len(sys.argv) > 1 else '.')
skip = re.compile(sys.argv[2]) if len(sys.argv) > 2 else None
names = [n for n in tasks.TASKS if rx.search(n) and not (skip and skip.search(n))]
t0 = time.time()
tot = []
seen = set()
with mp.get_context('fork').Pool(8, maxtasksperchild=8) as p:
    for r in p.imap_unordered(check.run_one, [(n, 900, time.time() + 90000) for n in names]):
        tot.append((r['secs'], r['task']))
        seen |= set(r['used']) | set(r['inlined'])
        if r['err'] or r['nbad']:
            print('BAD', r['task'], r['err'], [b['name'] for b in r['bad'][:3]], flush=True)
tot.sort(reverse=True)
print('%d tasks, %.0f s wall, %.0f s cpu' % (len(tot), time.time() - t0, sum(a for a, _ in tot)))
for a, b in tot[:15]: print('%7.1f %s' % (a, b))


if len(sys.argv) < 2:
    # the functions of the repository that no task runs
    cl = build_cl = None
    m = check.MOD
    import symex
    e = tasks.Ctl(m).engine()
    print('not reached:')
    for n, dm in sorted(e.dem.items(), key=lambda x: x[1]):
        if m.is_decl(n) or dm in seen or re.match(r'[\w:]*\w$|.*\bstd::.*\(', dm) and not re.match(r'[^(]*(ecc|field|dme|ot|puda|sss|aes|utils|opprf|elgamal)::[^(]*\(', dm) or '__gnu_cxx' in dm or any(dm.startswith(x) for x in ('std::', '__gnu_cxx', '__gmp', 'gmp_', 'void std::', '_GLOBAL__', 'ob_')):
            continue
        k, h, _ = e.resolve(n)
        if k == 'contract' and tasks.verifier_of(getattr(h, "name", h)):
            continue
        print('   ', dm, k)
