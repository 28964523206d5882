"""Verification tasks: each takes a function of /repo (or a client of harness/clients.cpp) and
its contract and generates the obligations."""
import time

from terms import *
import terms as T
import prover as PR
from symex import *
from symex import _objid
from lib import LIB
from points import *
import contracts as CT
from contracts import field_at, field_set, BYNAME_, FIELDS


class Spec(Exception):
    """the code no longer has the function / shape the contract is stated over"""


class Task:
    def __init__(s, name, fn, alts=None, about=''):
        s.name, s.fns, s.about = name, [fn] + list(alts or []), about


TASKS = {}


def task(name, *alts, about=''):
    def d(fn):
        TASKS[name] = Task(name, fn, alts, about)
        return fn
    return d


class Ctl:
    """what a task works with"""

    def __init__(s, mod, deadline=None):
        s.mod = mod
        s.engines = []
        s.deadline = deadline

    def engine(s, inline=(), **k):
        e = Engine(s.mod, CT.ALL, LIB)
        e.inline = set(inline)
        e.merge_cells_hook = merge_points
        e.deadline = s.deadline
        for a, b in k.items():
            setattr(e, a, b)
        s.engines.append(e)
        return e

    def find(s, e, rx):
        """the function whose demangled name matches"""
        import re
        r = re.compile(rx) if isinstance(rx, str) else rx
        ns = [n for n, d in e.dem.items() if r.fullmatch(d) and not s.mod.is_decl(n)]
        if not ns:
            raise Spec('no function matching %s' % r.pattern)
        return sorted(ns)[-1] if len(ns) > 1 else ns[0]


def cells(st, size, name):
    o = new_obj(st, 'cells', size, name)
    return Ptr(o.id)


def put_z(e, st, v, name='z'):
    p = cells(st, 16, name)
    e.zset(st, p, v)
    return p


def put_f(e, st, F, v, name='x'):
    p = cells(st, 32, name)
    field_set(e, st, p, v, P(FIELDS[F]))
    return p


def rets(outs, e, st0, what):
    """normal returns; anything else is a violated obligation"""
    r = []
    for st, kind, v in outs:
        if kind == 'ret':
            r.append((st, v))
        else:
            try:
                e.fail(st, '%s: ends by %s' % (what, {'throw': 'an exception', 'abort': 'abort'}.get(kind, kind)))
            except BadPath:
                pass
    return r


def reach(e, st, what):
    """vacuity guard: the end of the path must be satisfiable"""
    return feasible(st.ctx, TRUE)


def cmp_val(e, st, a, b, what):
    if isinstance(a, Z) and isinstance(b, Z):
        a, b = a.v, b.v
    if isinstance(a, Bool) or isinstance(b, Bool):
        a = a if isinstance(a, Bool) else not_(eq(P(a), ZERO))
        b = b if isinstance(b, Bool) else not_(eq(P(b), ZERO))
        return e.oblige(st, and_(implies(a, b), implies(b, a)), what)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return e.oblige(st, eq(a, b), what)
    if isinstance(a, Ptr) and isinstance(b, Poly):
        b = NULL
    if isinstance(b, Ptr) and isinstance(a, Poly):
        a = NULL
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj is None:
            return e.oblige(st, b.null, what)
        if b.obj is None:
            return e.oblige(st, a.null, what)
        if a.obj != b.obj:
            return e.oblige(st, and_(a.null, b.null), what)
        return e.oblige(st, or_(and_(a.null, b.null), and_(not_(a.null), not_(b.null), eq(a.off, b.off))), what)
    if same(a, b):
        return e.oblige(st, TRUE, what)
    return e.oblige(st, FALSE, what)


def cmp_obj(e, st, oid, exp, what, skip=()):
    """object oid of st has the cells of `exp` (an Obj)"""
    o = st.mem.get(oid)
    if o is None:
        e.oblige(st, FALSE, what + ': destroyed')
        return
    if o is exp or o.kind != 'cells':
        return
    for k in sorted(set(o.cells) | set(exp.cells)):
        if k in skip:
            continue
        a, b = o.cells.get(k), exp.cells.get(k)
        if a is None or b is None or a[0] != b[0]:
            e.oblige(st, FALSE, '%s: layout at +%d' % (what, k))
            continue
        cmp_val(e, st, a[1], b[1], what if len(exp.cells) == 1 else '%s +%d' % (what, k))


# ------------------------------------------------------------------ prime fields
def field_task(c):
    def run(ctl):
        e = ctl.engine(inline=[c.name])
        name = ctl.find(e, c.rx)
        for alias in ((False, True) if getattr(c, 'arg', '') == 'F' else (False,)):
            st = State()
            x = S('x', 0, c.p - 1)
            p0 = put_f(e, st, c.F, x, 'this')
            args = [p0]
            if c.arg == 'F':
                args.append(p0 if alias else put_f(e, st, c.F, S('y', 0, c.p - 1), 'a'))
            elif c.arg == 'Z':
                args.append(put_z(e, st, S('k'), 'a'))
            vals = s_vals = c.operands(e, st, ([NULL] if c.sret else []) + args, check=False)
            if c.op in ('/', '/='):
                st.assume(not_(eq(vals[1], ZERO)))
            if c.op == 'invert':
                st.assume(not_(eq(vals[0], ZERO)))
            if c.sret:
                args = [cells(st, 32, 'result')] + args
            want = eq(vals[0], vals[1]) if c.op == '==' else c.fn(c.p, *vals)
            pre = dict(st.mem)
            what = c.name + (' (operand is the object itself)' if alias else '')
            n = 0
            for st2, v in rets(e.run_func(st, name, args), e, st, what):
                n += 1
                if c.op == '==':
                    cmp_val(e, st2, v, want, what + ': result')
                else:
                    f = field_at(e, st2, args[0])
                    if f is None:
                        e.oblige(st2, FALSE, what + ': no field element stored')
                        continue
                    e.oblige(st2, eq(f[0], want), what + ': value')
                    e.oblige(st2, and_(le(ZERO, f[0]), lt(f[0], P(c.p))), what + ': canonical')
                    e.oblige(st2, eq(f[1], P(c.p)), what + ': modulus')
                    if not c.sret:
                        cmp_val(e, st2, v, args[0], what + ': returns the object')
                for q in args:
                    if q is args[0] and c.op != '==':
                        continue
                    cmp_obj(e, st2, q.obj, pre[q.obj], what + ': operand unchanged')
            if not n:
                e.oblige(st, FALSE, what + ': returns')
    return run


def fieldctor_task(c):
    def run(ctl):
        e = ctl.engine(inline=[c.name])
        name = ctl.find(e, c.rx)
        st = State()
        v = S('v')
        args = [cells(st, 32, 'this')] + ([put_z(e, st, v, 'v')] if c.arg else [])
        for st2, _ in rets(e.run_func(st, name, args), e, st, c.name):
            f = field_at(e, st2, args[0])
            if f is None:
                e.oblige(st2, FALSE, c.name + ': no field element stored')
                continue
            e.oblige(st2, eq(f[0], Mod(v, c.p) if c.arg else ZERO), c.name + ': value')
            e.oblige(st2, eq(f[1], P(c.p)), c.name + ': modulus')
            if c.arg:
                e.oblige(st2, eq(e.zget(st2, args[1]), v), c.name + ': argument unchanged')
    return run


for _c in CT.ALL:
    if isinstance(_c, CT.FieldOp):
        TASKS[_c.name] = Task(_c.name, field_task(_c))
    elif isinstance(_c, CT.FieldCtor):
        TASKS[_c.name] = Task(_c.name, fieldctor_task(_c))


def run_task(mod, t, deadline=None, verbose=0):
    """-> dict of results; tries the alternatives until one is accepted"""
    best = None
    t0 = time.time()
    for fn in t.fns:
        ctl = Ctl(mod, deadline)
        err = None
        try:
            fn(ctl)
        except (Unsupported, Spec) as x:
            err = '%s: %s' % (type(x).__name__, x)
            if hasattr(x, 'where'):
                err += ' @ ' + x.where
        except BadPath as x:
            err = None
        except (KeyError, AttributeError, TypeError, AssertionError, RecursionError) as x:
            import traceback
            err = 'internal: %r %s' % (x, traceback.format_exc()[-900:])
        obs = [o for e in ctl.engines for o in e.obs]
        used, inl, tru = {}, {}, {}
        inv, bnd = [], []
        for e in ctl.engines:
            for a, b in ((used, e.used), (inl, e.inlined), (tru, e.trusted)):
                for k, v in b.items():
                    a[k] = a.get(k, 0) + v
            inv += e.invariants
            bnd += e.bounded
        bad = [o for o in obs if not o.ok]
        r = dict(task=t.name, obs=obs, bad=bad, err=err, used=used, inlined=inl, trusted=tru, inv=inv, bounded=bnd)
        if not obs and not err:
            r['err'] = 'no obligation generated'
        if best is None or (len(bad) == 0 and not r['err']):
            best = r
        if not bad and not r['err']:
            break
    best['secs'] = time.time() - t0
    return best


# ------------------------------------------------------------------ curve points
def put_curve(e, st, ci, name='curve'):
    p = cells(st, CT.CURVE_SIZE, name)
    st.w(p.obj).cells.update(CT.curve_cells(ci, p))
    return p


def put_pt(e, st, ci, d, curve, name='P'):
    p = cells(st, PT_SIZE, name)
    pt_write(e, st, p, ci, d, curve)
    return p


def put_xy(e, st, ci, x, y, curve, name='P', inf=False):
    p = cells(st, PT_SIZE, name)
    o = st.w(p.obj)
    for k, v in {0: (16, Z(P(x))), 16: (16, Z(P(ci.p))), 32: (16, Z(P(y))), 48: (16, Z(P(ci.p))),
                 64: (1, ONE if inf else ZERO), 72: (8, curve)}.items():
        o.cells[k] = v
    return p


def on_curve(ci, x, y):
    return [eq(Mod(y * y - x * x * x - x.scale(ci.a) - ci.b, ci.p), ZERO), not_(eq(y, ZERO)),
            not_(eq(y, Mod(-y, ci.p)))]


def some_curve(e, st, cv, name):
    """curve pointer of a point at infinity: null or the curve"""
    return Ptr(cv.obj, cv.off, e.fresh_bool(st, 'nullcurve_' + name))


def chord(ci, x1, y1, x2, y2):
    p = ci.p
    l = Mod((y1 - y2) * Inv(Mod(x1 - x2, p), p), p)
    x3 = Mod(l * l - x1 - x2, p)
    return x3, Mod(l * (x1 - x3) - y1, p)


def tangent(ci, x, y):
    p = ci.p
    l = Mod((3 * x * x + ci.a) * Inv(Mod(2 * y, p), p), p)
    x3 = Mod(l * l - 2 * x, p)
    return x3, Mod(l * (x - x3) - y, p)


def want_xy(e, st, ci, q, xy, curves, what):
    """the point at q is xy (None: infinity) and refers to one of the curves"""
    c, off = e.cells_of(st, q, PT_SIZE, what='point')
    try:
        x, px, y, py, f, cv = (c[off + k][1] for k in (0, 16, 32, 48, 64, 72))
        x, px, y, py = x.v, px.v, y.v, py.v
    except (KeyError, AttributeError):
        e.oblige(st, FALSE, what + ': no point stored')
        return
    f = f if isinstance(f, Poly) else B(f)
    e.oblige(st, and_(eq(px, P(ci.p)), eq(py, P(ci.p))), what + ': coordinate moduli')
    if xy is None:
        e.oblige(st, not_(eq(f, ZERO)), what + ': is infinity')
        e.oblige(st, and_(eq(x, ZERO), eq(y, ZERO)), what + ': coordinates of infinity')
        return
    e.oblige(st, eq(f, ZERO), what + ': is finite')
    e.oblige(st, eq(x, P(xy[0])), what + ': x')
    e.oblige(st, eq(y, P(xy[1])), what + ': y')
    ok = FALSE
    if isinstance(cv, Ptr):
        for k in curves:
            if cv.obj == k.obj:
                ok = or_(ok, and_(not_(cv.null), eq(cv.off, k.off)))
    e.oblige(st, ok, what + ': curve')


def point_cases(ci, op):
    """(name, setup(e,st,cv)->(this, P, expected))"""
    p, n = ci.p, ci.n
    neg = op in ('-', '-=')

    def sym(st, k):
        x, y = S('x%d' % k, 0, p - 1), S('y%d' % k, 0, p - 1)
        st.assume(*on_curve(ci, x, y))
        return x, y

    def N(y):
        return Mod(-y, p)

    def fin(e, st, cv, xy, nm):
        return put_xy(e, st, ci, xy[0], xy[1], cv, nm)

    def inf(e, st, cv, nm):
        return put_xy(e, st, ci, 0, 0, some_curve(e, st, cv, nm), nm, True)

    def generic(e, st, cv, c2):
        a, b = sym(st, 1), sym(st, 2)
        st.assume(not_(eq(a[0], b[0])))
        return fin(e, st, cv, a, 'this'), fin(e, st, c2, b, 'P'), (chord(ci, *a, b[0], N(b[1]) if neg else b[1]), )

    def equal(e, st, cv, c2):
        a = sym(st, 1)
        return fin(e, st, cv, a, 'this'), fin(e, st, c2, a, 'P'), (None if neg else tangent(ci, *a), )

    def alias(e, st, cv, c2):
        a = sym(st, 1)
        q = fin(e, st, cv, a, 'this')
        return q, q, (None if neg else tangent(ci, *a), )

    def opposite(e, st, cv, c2):
        a = sym(st, 1)
        return fin(e, st, cv, a, 'this'), fin(e, st, c2, (a[0], N(a[1])), 'P'), (tangent(ci, *a) if neg else None, )

    def linf(e, st, cv, c2):
        b = sym(st, 2)
        return inf(e, st, cv, 'this'), fin(e, st, c2, b, 'P'), ((b[0], N(b[1]) if neg else b[1]), )

    def rinf(e, st, cv, c2):
        a = sym(st, 1)
        return fin(e, st, cv, a, 'this'), inf(e, st, c2, 'P'), (a, )

    def both(e, st, cv, c2):
        return inf(e, st, cv, 'this'), inf(e, st, c2, 'P'), (None, )

    def infalias(e, st, cv, c2):
        q = inf(e, st, cv, 'this')
        return q, q, (None, )
    return [('two points with different abscissas', generic), ('equal points', equal), ('an object with itself', alias),
            ('opposite points', opposite), ('infinity on the left', linf), ('infinity on the right', rinf),
            ('infinity twice', both), ('infinity with itself', infalias)]


def point_names(ci):
    return [c.name for c in CT.ALL if isinstance(c, CT.PointOp) and c.ci is ci]


def pointop_task(c):
    ci = c.ci

    def run(ctl):
        e = ctl.engine(inline=point_names(ci))
        name = ctl.find(e, c.rx)
        for cname, setup, two in [(a, b, t) for a, b in point_cases(ci, c.op) for t in (False, True)]:
            if two and (c.arg != 'P' or 'itself' in cname):
                continue
            if c.op == 'pointDouble' and cname not in ('equal points', 'infinity twice'):
                continue
            st = State()
            cv = put_curve(e, st, ci)
            cv2 = put_curve(e, st, ci, 'curve2') if two else cv
            a, b, (want, ) = setup(e, st, cv, cv2)
            if two:
                cname += ' referring to two curve objects'
            if c.op == 'pointDouble':
                cname = 'finite point' if cname == 'equal points' else 'infinity'
            what = '%s, %s' % (c.name, cname)
            args = [a] + ([b] if c.arg == 'P' else [])
            if c.sret:
                args = [cells(st, PT_SIZE, 'result')] + args
            pre = dict(st.mem)
            k = 0
            for st2, v in rets(e.run_func(st, name, args), e, st, what):
                k += 1
                if c.op == '==':
                    w = cname.startswith(('equal points', 'an object with itself', 'infinity twice', 'infinity with itself'))
                    cmp_val(e, st2, v, bconst(w), what + ': result')
                else:
                    want_xy(e, st2, ci, args[0], want, [cv, cv2], what)
                    if not c.sret:
                        cmp_val(e, st2, v, a, what + ': returns the object')
                for q in args:
                    if q is not args[0] or c.op == '==':
                        if q.obj != args[0].obj or c.op == '==':
                            cmp_obj(e, st2, q.obj, pre[q.obj], what + ': operand unchanged')
                cmp_obj(e, st2, cv.obj, pre[cv.obj], what + ': curve unchanged')
            if not k:
                e.oblige(st, FALSE, what + ': returns')
    return run


for _c in CT.ALL:
    if isinstance(_c, CT.PointOp) and _c.op[0] != '*':
        TASKS[_c.name] = Task(_c.name, pointop_task(_c))


def mul_inline(ci):
    return [c.name for c in CT.ALL if isinstance(c, CT.PointOp) and c.ci is ci and c.op[0] == '*']


def bitcond(c):
    """branch conditions about one bit of a number: both sides are joined"""
    c = c.a[0] if c.k == 'not' else c
    if c.k in ('and', 'or'):
        return any(bitcond(x) for x in c.a)
    return c.k in ('eq', 'le') and any(a.kind in ('bit', 'bits_at') or a.kind == 'mod' and P(a.args[1]).const() == 2 for a in c.a[0].atoms())


def pointmul_task(c):
    ci = c.ci

    def run(ctl):
        e = ctl.engine(inline=mul_inline(ci) if c.arg == 'N' and c.sret else [c.name], force_unroll=True, unroll=260, merge_pred=bitcond)
        name = ctl.find(e, c.rx)
        st = State()
        cv = put_curve(e, st, ci)
        d = S('d', 0, ci.n - 1)
        a = put_pt(e, st, ci, d, maybe_null(e, st, cv, d), 'this')
        if c.arg == 'N':
            k = S('k', 0, ci.n - 1)
            b = put_f(e, st, 'Field_%s_n' % ci.name, k, 'a')
        else:
            k = S('k')
            b = put_z(e, st, k, 'a')
        args = [a, b]
        if c.sret:
            args = [cells(st, PT_SIZE, 'result')] + args
        pre = dict(st.mem)
        r = rets(e.run_func(st, name, args), e, st, c.name)
        for st2, v in r:
            t = pt_read(e, st2, args[0])
            if t is None:
                e.oblige(st2, FALSE, c.name + ': result is a multiple of the point')
                continue
            e.oblige(st2, eq(Mod(t[1], ci.n), Mod(d * k, ci.n)), c.name + ': result is k times the point')
            if t[2].obj is not None and t[2].obj != cv.obj:
                e.oblige(st2, FALSE, c.name + ': curve')
            elif t[2].null is not FALSE:
                e.oblige(st2, or_(eq(Mod(t[1], ci.n), ZERO), not_(t[2].null)), c.name + ': curve')
            if not c.sret:
                cmp_val(e, st2, v, a, c.name + ': returns the object')
            for q in args:
                if q is not args[0]:
                    cmp_obj(e, st2, q.obj, pre[q.obj], c.name + ': operand unchanged')
            cmp_obj(e, st2, cv.obj, pre[cv.obj], c.name + ': curve unchanged')
        if not r:
            e.oblige(st, FALSE, c.name + ': returns')
    return run


for _c in CT.ALL:
    if isinstance(_c, CT.PointOp) and _c.op[0] == '*':
        TASKS[_c.name] = Task(_c.name, pointmul_task(_c))


# ------------------------------------------------------------------ evaluateP / evaluatePneg
def evaluate_task(ci, swap):
    """one of the two functions returns (x, r), the other (x, -r), r = (x^3+ax+b)^((p+1)/4);
    both return infinity exactly when r^2 differs from x^3+ax+b, i.e. (p = 3 mod 4) when there is
    no point with abscissa x"""
    def run(ctl):
        p = ci.p
        for op in ('evaluateP', 'evaluatePneg'):
            c = BYNAME_['Curve_%s::%s' % (ci.name, op)]
            e = ctl.engine(inline=[BYNAME_['Curve_%s::%s' % (ci.name, o)].name for o in ('evaluateP', 'evaluatePneg')])
            name = ctl.find(e, c.rx)
            st = State()
            x = S('x', 0, p - 1)
            y2 = Mod(x * x * x + x.scale(ci.a) + ci.b, p)
            # no point of these (odd order) curves has ordinate zero
            st.assume(not_(eq(y2, ZERO)))
            r = PowM(y2, P((p + 1) // 4), p)
            st.assume(not_(eq(r, ZERO)))
            y = r if (op == 'evaluateP') != swap else Mod(-r, p)
            exists = eq(Mod(r * r, p), y2)
            cv = put_curve(e, st, ci)
            xf = put_f(e, st, 'Field_%s_p' % ci.name, x, 'x')
            res = cells(st, PT_SIZE, 'result')
            pre = dict(st.mem)
            k = [0, 0]
            for st2, _ in rets(e.run_func(st, name, [res, cv, xf]), e, st, c.name):
                inf = e.cells_of(st2, res, PT_SIZE, what='point')[0].get(64)
                if inf is None:
                    e.oblige(st2, FALSE, c.name + ': no point stored')
                    continue
                infb = inf[1] if isinstance(inf[1], Bool) else not_(eq(inf[1], ZERO))
                for b, s3 in ((True, st2.clone()), (False, st2)):
                    s3.assume(infb if b else not_(infb))
                    if not feasible(s3.ctx, TRUE):
                        continue
                    k[b] += 1
                    if b:
                        e.oblige(s3, not_(exists), c.name + ': infinity only where there is no point')
                    else:
                        e.oblige(s3, exists, c.name + ': finite only where there is a point')
                    want_xy(e, s3, ci, res, None if b else (x, y), [cv], c.name)
                cmp_obj(e, st2, cv.obj, pre[cv.obj], c.name + ': curve unchanged')
                cmp_obj(e, st2, xf.obj, pre[xf.obj], c.name + ': argument unchanged')
            e.oblige(st, bconst(bool(k[0] and k[1])), c.name + ': both outcomes occur')
    return run


for _ci in (SECP, BN):
    _n = 'Curve_%s::evaluateP/evaluatePneg' % _ci.name
    TASKS[_n] = Task(_n, evaluate_task(_ci, False), [evaluate_task(_ci, True)])


# ------------------------------------------------------------------ curves
def is_prime(n):
    """a prime, by its Pratt certificate (engine/primes.json) checked here down to trial division"""
    import json
    import os
    global _certs
    if _certs is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'primes.json')) as f:
            _certs = {int(k): (v[0], [int(q) for q in v[1]]) for k, v in json.load(f).items()}
    if n < 1 << 20:
        return n > 1 and all(n % q for q in range(2, int(n ** 0.5) + 2) if q < n)
    if n not in _certs:
        return False
    a, qs = _certs[n]
    r = n - 1
    for q in qs:
        if r % q or not is_prime(q):
            return False
        while r % q == 0:
            r //= q
    return r == 1 and pow(a, n - 1, n) == 1 and all(pow(a, (n - 1) // q, n) != 1 for q in qs)


_certs = None


def no_root(ci):
    """x^3 + a x + b has no root modulo p: gcd(x^p - x, x^3 + a x + b) = 1"""
    p = ci.p

    def mul(u, v):
        r = [0] * 5
        for i in range(3):
            for j in range(3):
                r[i + j] += u[i] * v[j]
        for i in (4, 3):                        # x^3 = -a x - b
            r[i - 2] -= ci.a * r[i]
            r[i - 3] -= ci.b * r[i]
        return [t % p for t in r[:3]]
    acc, base, k = [1, 0, 0], [0, 1, 0], p
    while k:
        if k & 1:
            acc = mul(acc, base)
        base = mul(base, base)
        k >>= 1
    f, g = [ci.b % p, ci.a % p, 0, 1], [acc[0], (acc[1] - 1) % p, acc[2]]

    def trim(u):
        while u and u[-1] == 0:
            u.pop()
        return u
    trim(g)
    while g:
        while len(f) >= len(g):
            c = f[-1] * pow(g[-1], -1, p) % p
            d = len(f) - len(g)
            for i, t in enumerate(g):
                f[i + d] = (f[i + d] - c * t) % p
            f.pop()
            trim(f)
        f, g = g, f
    return len(f) == 1


def curve_math(ctl):
    """the constants of the specification itself: with lean/Group.lean, the group of each curve is cyclic of order n"""
    e = ctl.engine()
    st = State()
    for ci in (SECP, BN):
        for what, ok in (('p is prime', is_prime(ci.p)), ('n is prime', is_prime(ci.n)), ('p = 3 mod 4', ci.p % 4 == 3),
                         ('p != n', ci.p != ci.n),
                         ('base point on the curve', (ci.gy**2 - ci.gx**3 - ci.a * ci.gx - ci.b) % ci.p == 0),
                         ('n times the base point is infinity', ci.add(ci.mulpt(ci.n - 1), (ci.gx, ci.gy)) is None),
                         ('the curve is not singular', (4 * ci.a**3 + 27 * ci.b**2) % ci.p != 0),
                         ('2p + 1 < 3n', 2 * ci.p + 1 < 3 * ci.n),
                         ('no point of order two', no_root(ci))):
            e.oblige(st, bconst(ok), '%s: %s' % (ci.name, what))


TASKS['curve constants'] = Task('curve constants', curve_math)


def curvector_task(c):
    def run(ctl):
        e = ctl.engine(inline=[c.name])
        st = State()
        p = cells(st, CT.CURVE_SIZE, 'curve')
        for st2, _ in rets(e.run_func(st, ctl.find(e, c.rx), [p]), e, st, c.name):
            w = new_obj(st2, 'cells', CT.CURVE_SIZE, 'spec')
            w.cells.update(CT.curve_cells(c.ci, p))
            cmp_obj(e, st2, p.obj, w, c.name)
            # the accessors return the constants, the base point is accepted by isValid
            for fn, val in (('getOrder', c.ci.n), ('getPrime', c.ci.p), ('getA', c.ci.a), ('getB', c.ci.b)):
                s3 = st2.clone()
                r = cells(s3, 16, 'result')
                nm = ctl.find(e, r'ecc::Curve%s::%s\(\) const' % (CT.TPL(c.ci.name), fn))
                for s4, _ in rets(e.run_func(s3, nm, [r, p]), e, s3, fn):
                    e.oblige(s4, eq(e.zget(s4, r), P(val)), '%s: %s' % (c.name, fn))
            s3 = st2.clone()
            r = cells(s3, PT_SIZE, 'result')
            nm = ctl.find(e, r'ecc::Curve%s::getDefaultGen\(\) const' % CT.TPL(c.ci.name))
            for s4, _ in rets(e.run_func(s3, nm, [r, p]), e, s3, 'getDefaultGen'):
                want_xy(e, s4, c.ci, r, (c.ci.gx, c.ci.gy), [p], c.name + ': getDefaultGen')
    return run


def curverandom_task(c):
    ci = c.ci

    def run(ctl):
        e = ctl.engine(inline=[BYNAME_['Curve_%s::%s' % (ci.name, o)].name for o in ('getRandomPoint', 'getRandomScalar', 'generateKeyPair')])
        st = State()
        cv = put_curve(e, st, ci)
        r = cells(st, {'getRandomScalar': 32, 'getRandomPoint': PT_SIZE, 'generateKeyPair': 16 + PT_SIZE}[c.op], 'result')
        pre = dict(st.mem)
        for st2, _ in rets(e.run_func(st, ctl.find(e, c.rx), [r, cv]), e, st, c.name):
            if c.op == 'getRandomScalar':
                f = field_at(e, st2, r)
                if f is None:
                    e.oblige(st2, FALSE, c.name + ': no scalar stored')
                    continue
                d = f[0]
                e.oblige(st2, eq(f[1], P(ci.n)), c.name + ': modulus')
            else:
                t = pt_read(e, st2, r if c.op == 'getRandomPoint' else Ptr(r.obj, P(16)))
                if t is None or t[0] is not ci:
                    e.oblige(st2, FALSE, c.name + ': the point is a multiple of the base point')
                    continue
                d = t[1]
                e.oblige(st2, or_(eq(d, ZERO), bconst(t[2].obj == cv.obj)), c.name + ': curve')
                e.oblige(st2, or_(eq(d, ZERO), not_(t[2].null)), c.name + ': curve pointer')
            if c.op == 'generateKeyPair':
                sk = e.zget(st2, r)
                e.oblige(st2, and_(le(ZERO, sk), lt(sk, P(ci.n))), c.name + ': secret key in [0,order)')
                e.oblige(st2, eq(Mod(sk, ci.n), Mod(d, ci.n)), c.name + ': public key is base point times secret key')
                d = sk
            e.oblige(st2, and_(le(ZERO, d), lt(d, P(ci.n))), c.name + ': in [0,order)')
            draws = [x for x in st2.log if x[0] not in ('each', 'shuffle')]
            # every value is possible: the result is exactly one uniform draw from [0,order)
            e.oblige(st2, bconst(any(x[2] == 0 and x[3] == ci.n - 1 and x[1] == d for x in draws)),
                     c.name + ': value is a draw from [0,order)')
            cmp_obj(e, st2, cv.obj, pre[cv.obj], c.name + ': curve unchanged')
    return run


def isvalid_task(ci):
    def run(ctl):
        e = ctl.engine(inline=['Point_%s::isValid' % ci.name])
        nm = ctl.find(e, r'ecc::Point%s::isValid\(\) const' % CT.TPL(ci.name))
        st = State()
        cv = put_curve(e, st, ci)
        x, y = S('x', 0, ci.p - 1), S('y', 0, ci.p - 1)
        q = put_xy(e, st, ci, x, y, cv, 'this')
        pre = dict(st.mem)
        for st2, v in rets(e.run_func(st, nm, [q]), e, st, 'isValid'):
            cmp_val(e, st2, v, eq(Mod(y * y - x * x * x - x.scale(ci.a) - ci.b, ci.p), ZERO),
                    'Point_%s::isValid: finite point accepted exactly when on the curve' % ci.name)
            cmp_obj(e, st2, q.obj, pre[q.obj], 'operand unchanged')
        for inf in (NULL, cv):
            st = State()
            cv = put_curve(e, st, ci)
            q = put_xy(e, st, ci, 0, 0, NULL if inf is NULL else cv, 'this', True)
            for st2, v in rets(e.run_func(st, nm, [q]), e, st, 'isValid'):
                cmp_val(e, st2, v, TRUE, 'Point_%s::isValid: infinity is valid' % ci.name)
    return run


def equation_task(ci):
    """the right-hand side of the curve equation and its coefficients as field elements"""
    def run(ctl):
        e = ctl.engine()
        for fn, args, want in (('getAField() const', False, lambda x: P(ci.a % ci.p)), ('getBField() const', False, lambda x: P(ci.b % ci.p)),
                               ('evaluatePy2(field::Field_%s_p const&) const' % ci.name, True, lambda x: Mod(x * x * x + x.scale(ci.a) + ci.b, ci.p))):
            import re
            nm = ctl.find(e, r'ecc::Curve%s::%s' % (CT.TPL(ci.name), re.escape(fn)))
            st = State()
            cv = put_curve(e, st, ci)
            r = cells(st, 32, 'result')
            x = S('x', 0, ci.p - 1)
            a = [r, cv] + ([put_f(e, st, 'Field_%s_p' % ci.name, x, 'x')] if args else [])
            pre = dict(st.mem)
            what = 'Curve_%s::%s' % (ci.name, fn.split('(')[0])
            for st2, _ in rets(e.run_func(st, nm, a), e, st, what):
                f = field_at(e, st2, r)
                e.oblige(st2, FALSE if f is None else and_(eq(f[0], want(x)), eq(f[1], P(ci.p))), what + ': value')
                for q in a[1:]:
                    cmp_obj(e, st2, q.obj, pre[q.obj], what + ': operand unchanged')
    return run


for _c in CT.ALL:
    if isinstance(_c, CT.CurveCtor):
        TASKS[_c.name] = Task(_c.name, curvector_task(_c))
    elif isinstance(_c, CT.CurveRandom):
        TASKS[_c.name] = Task(_c.name, curverandom_task(_c))
for _ci in (SECP, BN):
    TASKS['Curve_%s::evaluatePy2' % _ci.name] = Task('Curve_%s::evaluatePy2' % _ci.name, equation_task(_ci))
    TASKS['Point_%s::isValid' % _ci.name] = Task('Point_%s::isValid' % _ci.name, isvalid_task(_ci))


# ------------------------------------------------------------------ compressed encoding
def encx_task(ci):
    def run(ctl):
        e = ctl.engine()
        g = ctl.find(e, r'ecc::Point%s::getEncodedX\(\) const' % CT.TPL(ci.name))
        h = ctl.find(e, r'ecc::Point%s::setEncodedX\(%s\)' % (CT.TPL(ci.name), CT.MPZ))
        what = 'Point_%s: setEncodedX(getEncodedX)' % ci.name
        st = State()
        cv = put_curve(e, st, ci)
        d = S('d', 1, ci.n - 1)
        q = put_pt(e, st, ci, d, cv, 'this')
        d2 = S('d2', 1, ci.n - 1)
        q2 = put_pt(e, st, ci, d2, cv, 'other')
        ex = cells(st, 16, 'encoding')
        pre = dict(st.mem)
        n = 0
        for st2, _ in rets(e.run_func(st, g, [ex, q]), e, st, what):
            cmp_obj(e, st2, q.obj, pre[q.obj], what + ': encoding leaves the point unchanged')
            cmp_obj(e, st2, cv.obj, pre[cv.obj], what + ': curve unchanged')
            v = e.zget(st2, ex)
            e.oblige(st2, le(ZERO, v), what + ': encoding is not negative')
            for st3, _ in rets(e.run_func(st2, h, [q2, ex]), e, st2, what):
                n += 1
                t = pt_read(e, st3, q2)
                if t is None or t[0] is not ci:
                    e.oblige(st3, FALSE, what + ': result is a point of the curve')
                    continue
                e.oblige(st3, eq(Mod(t[1], ci.n), d), what + ': gives back the point')
                e.oblige(st3, and_(bconst(t[2].obj == cv.obj), not_(t[2].null)), what + ': curve')
                cmp_obj(e, st3, q.obj, pre[q.obj], what + ': source unchanged')
                cmp_obj(e, st3, cv.obj, pre[cv.obj], what + ': curve unchanged')
        if not n:
            e.oblige(st, FALSE, what + ': returns')
    return run


for _ci in (SECP, BN):
    TASKS['Point_%s::encodedX' % _ci.name] = Task('Point_%s::encodedX' % _ci.name, encx_task(_ci))


def copyctor_task(t):
    """elements of vectors are copied field by field: T's copy constructor does exactly that"""
    def run(ctl):
        e = ctl.engine()
        import re
        last = re.sub(r'<.*', '', t).split('::')[-1]
        last = re.match(r'(?:\w+::)*(\w+)', t).group(1)
        name = None
        for cand in ('%s::%s(%s const&)' % (t, last, t), '%s::%s(%s&&)' % (t, last, t)):
            n = e.bydem.get(cand)
            if n is None:
                continue
            if e.mod.is_decl(n):
                raise Spec('copy constructor of %s is not defined' % t)
            name = n
            st = State()
            import lib
            es = lib.elem_size(e, t)
            src, dst = cells(st, es, 'source'), cells(st, es, 'copy')
            init = lib.default_elem(e, st, t, es)
            o = st.w(src.obj)
            some = put_curve(e, st, SECP)
            for k, (sz, v) in init.items():
                if isinstance(v, Z):
                    v = Z(S('z%d' % k))
                elif isinstance(v, Ptr):
                    v = Ptr(some.obj, ZERO, e.fresh_bool(st, 'null%d' % k))
                elif isinstance(v, Ref):
                    raise Unsupported('copy constructor of a class with containers: ' + t)
                elif isinstance(v, Poly):
                    v = S('v%d' % k, 0, 1 if sz == 1 else (1 << (8 * sz)) - 1)
                o.cells[k] = (sz, v)
            pre = dict(st.mem)
            for st2, _ in rets(e.run_func(st, name, [dst, src]), e, st, cand):
                if not cand.endswith('&&)'):
                    cmp_obj(e, st2, src.obj, pre[src.obj], cand + ': source')
                cmp_obj(e, st2, dst.obj, pre[src.obj], cand + ': copy')
        if name is None:
            raise Spec('no copy constructor of %s' % t)
    return run


def get_task(name):
    if name not in TASKS and name.startswith('copyctor:'):
        TASKS[name] = Task(name, copyctor_task(name[9:]))
    return TASKS[name]


def verifier_of(contract):
    """the task that proves a contract"""
    import re
    m = re.fullmatch(r'(Curve_\w+)::evaluateP(neg)?', contract)
    if m:
        return m.group(1) + '::evaluateP/evaluatePneg'
    return contract
