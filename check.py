#!/usr/bin/env python3-vt
"""Decides one property: check.py --property C03 [--tier quick|thorough]

Compiles /repo's current sources to LLVM IR, generates the obligations of every task of the
property and of every contract those tasks use (transitively), and has the prover discharge
them.  Exit 0: all discharged.  Exit 1: `VIOLATION property=<id> replay=<path>`."""
import argparse
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
import build
import llvmc

T0 = time.time()


def result(name, err, secs=0):
    return dict(task=name, err=err, used={}, inlined={}, trusted={}, inv=[], bounded=[], secs=secs, n=0, discharged=0, nbad=0, bad=[], how={},
                names={}, stats=dict(z3_time=0, z3_calls=0))


def run_one(a):
    name, limit, end = a
    limit = min(limit, end - time.time())
    if limit < 3:
        return result(name, 'time limit')
    import tasks
    import prover as PR
    for k in PR.STATS:
        PR.STATS[k] = 0
    t = tasks.get_task(name)

    def alarm(*_):
        raise TimeoutError
    signal.signal(signal.SIGALRM, alarm)
    # repeatedly: an exception raised inside a callback of the solver is lost
    signal.setitimer(signal.ITIMER_REAL, limit, 3)
    try:
        r = tasks.run_task(MOD, t)
    except TimeoutError:
        r = dict(task=name, obs=[], bad=[], err='time limit of %d s' % limit, used={}, inlined={}, trusted={}, inv=[], bounded=[], secs=limit)
    except Exception as x:
        r = dict(task=name, obs=[], bad=[], err='internal: %r %s' % (x, traceback.format_exc()[-900:]), used={}, inlined={}, trusted={},
                 inv=[], bounded=[], secs=0)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    import terms as T
    out = dict(task=name, err=r['err'], used=r['used'], inlined=r['inlined'], trusted=r['trusted'], inv=[str(i)[:400] for i in r['inv']],
               bounded=[str(b) for b in r['bounded']], secs=r['secs'], n=len(r['obs']), stats=dict(PR.STATS))
    how, names = {}, {}
    for o in r['obs']:
        if o.ok:
            how[o.how] = how.get(o.how, 0) + 1
        names[o.name] = names.get(o.name, 0) + 1
    out['how'], out['names'] = how, names
    out['discharged'] = sum(how.values())
    out['bad'] = []
    for o in r['bad'][:12]:
        d = dict(name=o.name, how=o.how, note=o.note)
        try:
            d['goal'] = repr(o.goal)[:3000] if o.goal is not None else ''
            d['facts'] = [repr(f)[:600] for f in (o.ctx.facts if o.ctx else ())][-40:]
        except Exception as x:
            d['goal'] = 'not printable: %r' % x
        if len(out['bad']) < 4 and o.goal is not None and o.ctx is not None:
            try:
                signal.signal(signal.SIGALRM, alarm)
                signal.alarm(15)
                m = PR.find_model(o.goal, o.ctx, tries=300, seed=int(os.environ.get('VERIF_SEED', '1') or 1))
                if m is not None:
                    d['model'] = {T.show(a.poly)[:80]: str(v) for a, v in list(m.items())[:60]}
            except Exception:
                pass
            finally:
                signal.alarm(0)
        out['bad'].append(d)
    out['nbad'] = len(r['bad'])
    return out


def closure(roots, jobs, limit, end):
    """run the roots and the tasks of every contract used; -> name -> result"""
    import tasks
    res, seen, active = {}, set(), []
    pool = mp.get_context('fork').Pool(jobs, maxtasksperchild=8)
    todo = list(roots)

    known = {(k['task']) for k in load_known()}
    hurry = False

    def submit(n):
        if n in seen:
            return
        seen.add(n)
        active.append((n, pool.apply_async(run_one, ((n, limit, end), ))))
    try:
        for n in todo:
            submit(n)
        while active:
            if time.time() > end + (5 if hurry else 20):
                for n, h in active:
                    res[n] = result(n, 'stopped after the failure of another task' if hurry else 'time limit')
                break
            for n, h in list(active):
                if h.ready():
                    active.remove((n, h))
                    r = h.get()
                    res[n] = r
                    if (r['bad'] or r['err']) and n not in known and not hurry:
                        # the verdict is settled; the other tasks only add detail
                        hurry, end = True, min(end, time.time() + 60)
                    for c in r['used']:
                        submit(tasks.verifier_of(c))
            time.sleep(0.01)
    finally:
        pool.terminate()
    return res


def cycles(res):
    """a contract may not be used, directly or indirectly, to prove itself"""
    import tasks
    g = {n: {tasks.verifier_of(c) for c in r['used']} for n, r in res.items()}
    state, bad = {}, []

    def go(n, path):
        state[n] = 1
        for m in sorted(g.get(n, ())):
            if state.get(m) == 1:
                bad.append(' -> '.join(path[path.index(m):] + [m]) if m in path else m)
            elif m not in state:
                go(m, path + [m])
        state[n] = 2
    for n in sorted(g):
        if n not in state:
            go(n, [n])
    return bad


def main():
    global MOD
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--limit', type=int, help='seconds per task')
    ap.add_argument('--norefute', action='store_true')
    o = ap.parse_args()
    pid = o.property
    d = build.scratch()
    try:
        al, notcompiled = build.module(d)
        MOD = llvmc.Module(al)
        broken = None
    except Exception as x:
        notcompiled, broken = [], repr(x)
    import tasks
    import props
    import refute
    p = props.PROPS[pid]
    import lemmas
    lem = lemmas.start(p.lemmas, d)
    limit = o.limit or (420 if o.tier == 'quick' else 2400)
    tb = time.time() - T0
    if broken:
        res = {'build': result('build', 'the sources cannot be compiled and linked: ' + broken)}
    else:
        res = closure(p.roots, o.jobs, limit, T0 + (560 if o.tier == 'quick' else 7200))
    obs = sum(r['n'] for r in res.values())
    dis = sum(r['discharged'] for r in res.values())
    failed = []          # (task, obligation record)
    for n, r in sorted(res.items()):
        for b in r['bad']:
            failed.append((n, b))
        if r['err']:
            failed.append((n, dict(name='%s: %s' % (n, r['err']), how='error')))
        if not r['bad'] and not r['err'] and r['n'] != r['discharged']:
            failed.append((n, dict(name='%s: obligation count' % n, how='error')))
    for c in cycles(res):
        failed.append(('contracts', dict(name='circular use of contracts: ' + c, how='error')))
    for src, out in notcompiled:
        if p.compiles and os.path.basename(src) in p.compiles:
            failed.append((src, dict(name='%s does not compile' % src, how='error', note=out[-2000:])))
    known = [k for k in load_known() if k['property'] == pid]
    hits = []
    for n, b in list(failed):
        for k in known:
            if k['task'] == n and b['name'].startswith(k['obligation']):
                hits.append((k, n, b))
                failed.remove((n, b))
                break
    for k in known:
        if any(h[0] is k for h in hits):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    hits_n = sum(1 for _ in hits)
    # evidence
    lem = lemmas.finish(lem)
    back = {}
    for r in res.values():
        for h, c in r['how'].items():
            back[h] = back.get(h, 0) + c
    trusted = {}
    for r in res.values():
        for k, v in r['trusted'].items():
            trusted[k] = trusted.get(k, 0) + v
    inl = sorted({k for r in res.values() for k in r['inlined']})
    con = sorted({c for r in res.values() for c in r['used']})
    ev = dict(property=pid, tier=o.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='proof',
              coverage=dict(obligations=obs, discharged=dis,
                            checker_cmd='cd /verif && ./check.py --property %s --tier %s' % (pid, o.tier),
                            trusted_base=['clang 18 front end (C++ to LLVM IR)', 'engine/*.py (VC generator, normaliser)', 'z3',
                                          'contracts of external functions: ' + ', '.join(sorted(trusted)[:200])] + p.assumptions,
                            tasks={n: dict(obligations=r['n'], discharged=r['discharged'], seconds=round(r['secs'], 2)) for n, r in sorted(res.items())},
                            contracts_used=con, functions_verified_through_inlining=inl,
                            back_ends=back, solver_seconds=round(sum(r['stats']['z3_time'] for r in res.values()), 2),
                            solver_calls=sum(r['stats']['z3_calls'] for r in res.values()),
                            loop_invariants=sorted({i for r in res.values() for i in r['inv']})[:200],
                            bounded=sorted({i for r in res.values() for i in r['bounded']}),
                            lemmas=lem, known_findings=hits_n),
              wall_s=0)
    if failed:
        ev['coverage']['failed'] = [b['name'] for n, b in failed][:50]
    rc = 0
    if failed:
        rc = 1
        rdir = os.path.join(HERE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, pid + '.json')
        inp = None
        if not o.norefute:
            pool = []
            for n, b in failed:
                for v in b.get('model', {}).values():
                    if v.lstrip('-').isdigit():
                        pool.append(v)
            left = 840 - (time.time() - T0) if o.tier == 'quick' else 900
            try:
                inp = refute.search(d, pid, pool, min(left - 100, 240 if pid in ('C13', 'C14', 'C15', 'C16') else 160))
            except Exception as x:
                inp = dict(error=repr(x))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, failed=[dict(task=n, **b) for n, b in failed], failing_input=inp,
                           rerun='cd /verif && ./check.py --property %s' % pid), f, indent=1)
        for n, b in failed[:12]:
            print('failed obligation [%s] %s' % (n, b['name'][:400]))
        if inp and inp.get('failing'):
            print('failing input: %s' % inp['failing'][:1500])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    ev['wall_s'] = round(time.time() - T0, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d tasks, %d contracts, build %.1f s, total %.1f s' %
          (pid, obs, dis, len(res), len(con), tb, time.time() - T0))
    return rc


def load_known():
    r = []
    p = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                r.append(json.loads(l))
    return r


if __name__ == '__main__':
    sys.exit(main())
