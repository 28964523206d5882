"""C17, C18: Shamir's secret sharing (clients in harness/c_sss.cpp)."""
from tasks_dme import *
import lib

MAXN = 1 << 40
FN = 'Field_secp256r1_n'


def get(D, st, f, *a):
    return D.one(st, f, *a)[1]


def new(D, st):
    o = cells(st, 8, 'o')
    return [(s2, D.ptr(s2, o)) for s2, _ in D.call(st, 'ss_new', o)]


def draws(st):
    """the families of random draws in a log: (value at j, lo, hi, j, count)"""
    r = []
    for x in st.log:
        if x[0] == 'each':
            r += [(y[1], y[2], y[3], x[1], x[2]) for y in x[3] if y[0] not in ('each', 'shuffle')]
    return r


def shares_task(ctl):
    D = Drv(ctl, 'getShares')
    e = D.e
    st0 = State()
    t, n = S('t', 1, MAXN), S('n', 0, MAXN)
    sec = S('secret', 0, N - 1)
    for st, o in new(D, st0):
        v = cells(st, 24, 'shares')
        st, _ = D.one(st, 'ss_empty', v)
        sp = put_f(e, st, FN, sec, 'secret')
        for st1, _ in D.call(st, 'ss_get', o, t, n, sp, v):
            D.n += 1
            e.oblige(st1, eq(get(D, st1, 'ss_n', v), n), 'getShares: number of shares')
            w = D.fld(st1, sp, 'the secret')
            if w is not None:
                e.oblige(st1, eq(w, sec), 'getShares: the secret is unchanged')
            i = S('i', 0, MAXN)
            st1.assume(lt(i, n))
            x = D.fld(st1, get(D, st1, 'ss_idx', v, i), 'index')
            y = D.fld(st1, get(D, st1, 'ss_val', v, i), 'value')
            if x is None or y is None:
                continue
            e.oblige(st1, eq(x, i + 1), 'getShares: share i has index i + 1')
            fams = draws(st1)
            x = i + 1
            j = S('j', 0, INF)
            what = 'the value is that of a polynomial: constant term the secret, every other coefficient (below t) a draw of its own'
            if not fams:
                e.oblige(st1, eq(t, ONE), 'getShares: coefficients are drawn')
                e.oblige(st1, eq(y, sec), 'getShares: ' + what)
                continue
            for val, lo, hi, var, cnt in fams[:1]:
                e.oblige(st1, and_(eq(P(lo), ZERO), eq(P(hi), P(N - 1))), 'getShares: coefficients are drawn from the whole field')
                e.oblige(st1, le(t - 1, cnt), 'getShares: every coefficient has its draw')
                e.oblige(st1, bconst(var in fv_(val)), 'getShares: draws are distinct')
                f = ite(eq(j, ZERO), sec, subst(val, {var: j - 1}))
                e.oblige(st1, eq(Mod(y - Sum(f * T.gpow(x, j), t, j.atom()), N), ZERO), 'getShares: ' + what)
    D.done(st0)


def fv_(p):
    return T.fvp(p)


TASKS['Shamir getShares'] = Task('Shamir getShares', shares_task)


def share_vec(D, st, m, idx, val):
    e = D.e
    st, off = D.one(st, 'ss_off_val')
    st, es = D.one(st, 'ss_size_share')
    off, es = off.const(), es.const()
    v = cells(st, 24, 'shares')
    x0, x1 = put_f(e, st, FN, idx, 'idx'), put_f(e, st, FN, val, 'val')
    cs = dict(st.mem[x0.obj].cells)
    cs.update({off + k: c for k, c in st.mem[x1.obj].cells.items()})
    lib.vec_new(e, st, v, es, 'sss::Share', m, [Seg(ZERO, m, cs, T.bvar(0))])
    return st, v


def recon_task(ctl):
    D = Drv(ctl, 'reconSecret')
    e = D.e
    st0 = State()
    m = S('m', 1, MAXN)
    PR.INJECTIVE.add(('idx', N))      # the shares are distinct
    for st, o in new(D, st0):
        bv = T.bvar(0)
        x = lambda i: App('idx', i, lo=1, hi=N - 1)
        y = lambda i: App('val', i, lo=0, hi=N - 1)
        st, v = share_vec(D, st, m, x(bv.poly), y(bv.poly))
        out = put_f(e, st, FN, ZERO, 'out')
        for st1, _ in D.call(st, 'ss_rec', o, v, out):
            D.n += 1
            r = D.fld(st1, out, 'secret')
            if r is None:
                continue
            i, j = S('i', 0, INF), S('j', 0, INF)
            same = eq(i, j)
            num = Prod(ite(same, ONE, x(j)), m, j.atom())
            den = Prod(ite(same, ONE, x(j) - x(i)), m, j.atom())
            e.oblige(st1, eq(Mod(r - Sum(y(i) * num * Inv(den, N), m, i.atom()), N), ZERO),
                     'reconSecret: the value at zero of the polynomial through the shares (lean/Lagrange.lean)')
    D.done(st0)


TASKS['Shamir reconSecret'] = Task('Shamir reconSecret', recon_task)


def both_task(ctl, t, n, pick):
    """sharing and reconstruction composed, for the given shares in the given order"""
    D = Drv(ctl, 'sharing %d of %d, shares %s' % (t, n, pick))
    e = D.e
    st0 = State()
    sec = S('secret', 0, N - 1)
    for st, o in new(D, st0):
        v = cells(st, 24, 'shares')
        st, _ = D.one(st, 'ss_empty', v)
        sp = put_f(e, st, FN, sec, 'secret')
        for st1, _ in D.call(st, 'ss_get', o, P(t), P(n), sp, v):
            u = cells(st1, 24, 'chosen')
            st1, _ = D.one(st1, 'ss_empty', u)
            for i in pick:
                st1, _ = D.one(st1, 'ss_add', u, v, P(i - 1))
            out = put_f(e, st1, FN, ZERO, 'out')
            for st2, _ in D.call(st1, 'ss_rec', o, u, out):
                D.n += 1
                r = D.fld(st2, out, 'secret')
                if r is not None:
                    e.oblige(st2, eq(r, sec), D.what + ': the secret')
    D.done(st0)


for _t, _n, _p in ((1, 1, (1,)), (1, 2, (2,)), (2, 2, (2, 1)), (2, 3, (3, 1)), (3, 3, (2, 3, 1)), (2, 3, (1, 3, 2)), (3, 5, (5, 2, 4)), (3, 5, (1, 2, 3, 4, 5))):
    def _f(ctl, t=_t, n=_n, p=_p):
        both_task(ctl, t, n, p)
    _nm = 'Shamir %d of %d %s' % (_t, _n, ''.join(map(str, _p)))
    TASKS[_nm] = Task(_nm, _f)
