import sys, signal, cProfile, pstats, traceback
sys.path.insert(0,'/verif/engine')
T_=int(sys.argv[1]); pat=sys.argv[2]
import llvmc; m=llvmc.Module('/tmp/dbg/all.bc')
import tasks, tasks_all, re
t=[t for n,t in tasks.TASKS.items() if re.search(pat,n)][0]
class X(BaseException): pass
def h(*a):
    traceback.print_stack(a[1], limit=None, file=open('/tmp/stack.txt','w'))
    raise X()
signal.signal(signal.SIGALRM,h); signal.alarm(T_)
p=cProfile.Profile(); p.enable()
try:
    r=tasks.run_task(m,t); print(t.name,len(r['obs']),len(r['bad']),r['err'],r['secs'])
    for o in r['bad'][:10]: print(o.name)
except X: pass
p.disable()
pstats.Stats(p).sort_stats('cumtime').print_stats(int(sys.argv[3]) if len(sys.argv)>3 else 35)
