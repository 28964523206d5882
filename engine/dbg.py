import sys, time, os
sys.path.insert(0,'/verif/engine')
import build, llvmc
os.makedirs('/tmp/dbg',exist_ok=True)
if '-b' in sys.argv or not os.path.exists('/tmp/dbg/all.bc'):
    al,bad=build.module('/tmp/dbg')
    for f,o in bad: print('BAD',f,o[:1500])
m=llvmc.Module('/tmp/dbg/all.bc')
import tasks, tasks_all, re
import terms as T
pats=[a for a in sys.argv[1:] if not a.startswith('-')]
for a in sys.argv[1:]:
    if a.startswith('copyctor:'): tasks.get_task(a)
for n,t in tasks.TASKS.items():
    if any(re.search(p,n) for p in pats):
        t0=time.time()
        r=tasks.run_task(m,t)
        print('%-60s obs %3d bad %2d %.2fs %s'%(n,len(r['obs']),len(r['bad']),r['secs'],(r['err'] or '')[:1200]))
        if '-v' in sys.argv:
            for o in r['obs']: print('   ',o.ok,o.how,o.name, '' if o.ok else (repr(o.goal) if isinstance(o.goal,T.Bool) else T.show(o.goal))[:1500] if hasattr(T,'show') else '')
            print('   used',r['used']); print('   inlined',list(r['inlined'])[:40])
        else:
            for o in r['bad'][:5]: print('   ',o.how,o.name,(repr(o.goal) if isinstance(o.goal,T.Bool) else T.show(o.goal))[:400])
            if '-f' in sys.argv:
                for o in r['bad'][:3]:
                    print(o.name); [print('     ',T.show_bool(f)[:200]) for f in (o.ctx.facts if o.ctx else ())]
            if '-s' in sys.argv:
                import prover as PR
                for o in r['bad'][:2]:
                    c2, sub = PR.normalise(o.ctx)
                    print('SIMP', repr(PR.simp_bool(PR.apply_sub(o.goal, sub, c2.rg), c2))[:3000])
                    print([(T.show(k.poly), T.show(v)) for k, v in sub.items()][:10] if isinstance(sub, dict) else sub)
                    for f in c2.facts: print('   ', repr(f)[:200])
