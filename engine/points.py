"""Elliptic-curve points in the ghost state: a finite or infinite point of the (prime order)
curve group is d*G for exactly one d in [0,n); X(d), Y(d) are its affine coordinates, with the
representation invariant that infinity is stored with is_inf and coordinates (0,0)."""
from terms import *
import terms as T
from symex import *

PT_SIZE = 80


class CurveInfo:
    def __init__(s, name, p, n, a, b, gx, gy):
        s.name, s.p, s.n, s.a, s.b, s.gx, s.gy = name, p, n, a, b, gx, gy
        s.X, s.Y, s.EP = 'X_' + name, 'Y_' + name, 'EP_' + name
        T.PRIMES.add(p)
        T.PRIMES.add(n)
        for f in (s.X, s.Y):
            T.HOIST[f] = True
            T.APP_RANGE[f] = (0, p - 1)
        T.SIMPL[s.X] = lambda d: s._simpl(s.X, d)
        T.SIMPL[s.Y] = lambda d: s._simpl(s.Y, d)
        T.EQZERO[s.Y] = True        # odd group order: no point with ordinate 0
        T.APP_RANGE[s.EP] = (0, n - 1)
        T.FUN[s.X] = lambda d: s.mul(d)[0]
        T.FUN[s.Y] = lambda d: s.mul(d)[1]
        s._memo = {}

    def _simpl(s, f, d):
        """X(-d) = X(d), Y(-d) = -Y(d): of d and -d the one with the smaller leading coefficient"""
        c = d.const()
        if c is not None:
            if c % s.n == 0:
                return ZERO
            if c % s.n in (1, s.n - 1):
                x, y = s.mul(c)
                return P(x if f == s.X else y)
        if T.mod_negative(d, s.n):
            r = App(f, Mod(-d, s.n))
            return r if f == s.X else Mod(-r, s.p)
        return None

    def add(s, P1, P2):
        p = s.p
        if P1 is None:
            return P2
        if P2 is None:
            return P1
        x1, y1 = P1
        x2, y2 = P2
        if x1 == x2:
            if (y1 + y2) % p == 0:
                return None
            l = (3 * x1 * x1 + s.a) * pow(2 * y1, -1, p) % p
        else:
            l = (y2 - y1) * pow(x2 - x1, -1, p) % p
        x = (l * l - x1 - x2) % p
        return x, (l * (x1 - x) - y1) % p

    def mulpt(s, k):
        R, Q = None, (s.gx, s.gy)
        k %= s.n
        while k:
            if k & 1:
                R = s.add(R, Q)
            Q = s.add(Q, Q)
            k >>= 1
        return R

    def mul(s, d):
        d %= s.n
        r = s._memo.get(d)
        if r is None:
            r = s._memo[d] = s.mulpt(d) or (0, 0)
        return r

    def x(s, d):
        d = P(d)
        return App(s.X, Mod(d, s.n))

    def y(s, d):
        return App(s.Y, Mod(P(d), s.n))


def _div_x(x, m):
    """contract of encode: the abscissa is the message followed by ten bits"""
    a = x.args[1].atom()
    if m == 1 << 10 and a is not None and a.kind == 'app' and a.args[0] == 'enc':
        return a.args[1]
    return None


T.DIVSIMPL['X_secp256r1'] = _div_x

SECP = CurveInfo('secp256r1', 2**256 - 2**224 + 2**192 + 2**96 - 1,
                 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
                 2**256 - 2**224 + 2**192 + 2**96 - 4,
                 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
                 0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
                 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)
_t = -(2**62 + 2**55 + 1)
_p = 36 * _t**4 + 36 * _t**3 + 24 * _t**2 + 6 * _t + 1
BN = CurveInfo('bn254', _p, 36 * _t**4 + 36 * _t**3 + 18 * _t**2 + 6 * _t + 1, 0, 2, _p - 1, 1)
CURVES = {c.p: c for c in (SECP, BN)}
BYNAME = {c.name: c for c in (SECP, BN)}
FIELDS = {'Field_secp256r1_p': SECP.p, 'Field_secp256r1_n': SECP.n, 'Field_bn254_p': BN.p, 'Field_bn254_n': BN.n}
NAMES_ = {}
for _k, _v in FIELDS.items():
    T.NAMES[_v] = _k.replace('Field_', '')


def pt_at(cells, c):
    """is there a Point at offset c of these cells? -> CurveInfo"""
    for k in (0, 16, 32, 48):
        v = cells.get(c + k)
        if v is None or not isinstance(v[1], Z):
            return None
    pv = cells[c + 16][1].v.const()
    if pv is None or pv != cells[c + 48][1].v.const() or pv not in CURVES:
        return None
    f = cells.get(c + 64)
    if f is None or f[0] != 1 or not isinstance(f[1], Poly):
        return None
    cv = cells.get(c + 72)
    if cv is None or not (isinstance(cv[1], Ptr) or isinstance(cv[1], Poly) and cv[1].const() == 0):
        return None
    return CURVES[pv]


def pt_dlog(cells, c, ci, ctx=None):
    """ghost discrete log stored at offset c, or None"""
    x, y, inf = cells[c][1].v, cells[c + 32][1].v, cells[c + 64][1]
    ic = inf.const()
    if ic == 1:
        return ZERO if x.const() == 0 and y.const() == 0 else None
    if x.const() is not None and y.const() is not None and ic == 0:
        if (x.const(), y.const()) == (ci.gx, ci.gy):
            return ONE
        return None
    a, b = x.atom(), y.atom()
    neg = False
    if b is not None and b.kind == 'mod' and b.args[1] == ci.p:
        b = Mod(-y, ci.p).atom()
        neg = True
    if a is None or b is None or a.kind != 'app' or b.kind != 'app' or a.args[0] != ci.X or b.args[0] != ci.Y:
        return None
    if a.args[1] != b.args[1]:
        return None
    d = a.args[1]
    if neg:
        d = Mod(-d, ci.n)
    z = eq(d, ZERO)
    if inf == B(z):
        return d
    if ctx is not None:
        from prover import prove
        if prove(eq(inf, B(z)), ctx):
            return d
    return None


def pt_cells(ci, d, curve):
    d = Mod(P(d), ci.n)
    return {0: (16, Z(ci.x(d))), 16: (16, Z(P(ci.p))), 32: (16, Z(ci.y(d))), 48: (16, Z(P(ci.p))),
            64: (1, B(eq(d, ZERO))), 72: (8, curve)}


def pt_write(e, st, p, ci, d, curve):
    cells, c = e.cells_of(st, p, PT_SIZE, True, 'point')
    for k in [k for k in cells if c <= k < c + PT_SIZE]:
        del cells[k]
    for k, v in pt_cells(ci, d, curve).items():
        cells[c + k] = v


def pt_read(e, st, p):
    """-> (CurveInfo, d, curve pointer) or None"""
    cells, c = e.cells_of(st, p, PT_SIZE, what='point')
    ci = pt_at(cells, c)
    if ci is None:
        return None
    d = pt_dlog(cells, c, ci, st.ctx)
    if d is None:
        return None
    cv = cells[c + 72][1]
    if isinstance(cv, Poly):
        cv = NULL
    return ci, d, cv


def maybe_null(e, st, cv, d):
    """curve pointer of a result: cv, possibly null when the point is infinity"""
    z = eq(P(d), ZERO)
    if z is FALSE:
        return cv
    if cv.obj is None:
        return cv
    return Ptr(cv.obj, cv.off, and_(z, e.fresh_bool(st, 'nullcurve')))


def pt_show(e, st, p):
    cells, c = e.cells_of(st, p, PT_SIZE, what='point')
    r = []
    for k in (0, 32, 64, 72):
        v = cells.get(c + k)
        v = v and v[1]
        r.append(T.show(v.v if isinstance(v, Z) else v)[:300] if isinstance(v, (Z, Poly)) else repr(v)[:100])
    return ' ; '.join(r)


def _nullok(cv, d):
    """the pointer can be null only if d == 0"""
    if isinstance(cv, Poly) or cv.obj is None:
        return d.const() == 0
    z = eq(d, ZERO)
    return cv.null is FALSE or cv.null is z or cv.null.k == 'and' and z in cv.null.a or z is TRUE


def merge_points(e, c, a, b, k):
    """join of two points: ghost d chosen by the condition"""
    ci = pt_at(a, k)
    if ci is None or pt_at(b, k) is not ci:
        return None
    d1, d2 = pt_dlog(a, k, ci), pt_dlog(b, k, ci)
    if d1 is None or d2 is None:
        return None
    c1, c2 = a[k + 72][1], b[k + 72][1]
    if not _nullok(c1, d1) or not _nullok(c2, d2):
        return None
    o1 = c1.obj if isinstance(c1, Ptr) else None
    o2 = c2.obj if isinstance(c2, Ptr) else None
    if o1 is not None and o2 is not None and (o1 != o2 or c1.off != c2.off):
        return None
    d = ite(c, d1, d2)
    if o1 is None and o2 is None:
        cv = NULL
    else:
        g = c1 if o1 is not None else c2
        z = eq(Mod(d, ci.n), ZERO)
        if c1.null is FALSE and c2.null is FALSE if o1 is not None and o2 is not None else False:
            cv = g
        else:
            e._mrg = getattr(e, '_mrg', 0) + 1
            cv = Ptr(g.obj, g.off, and_(z, eq(S('nullcurve_m%d' % e._mrg, 0, 1), ONE)))
    return {k + o: v for o, v in pt_cells(ci, d, cv).items()}


def ep_lemma(g, ctx):
    """the point EP(x) found for abscissa x is infinity or has abscissa x"""
    r = []
    for a in fv(g) if isinstance(g, Poly) else _apps(g):
        for ci in (SECP, BN):
            if a.kind == 'app' and a.args[0] == ci.X:
                d = a.args[1]
                b = d.atom()
                if b is not None and b.kind == 'app' and b.args[0] == ci.EP:
                    r.append(or_(eq(d, ZERO), eq(ci.x(d), b.args[1])))
    return r


def _apps(g):
    seen = set()

    def go(x):
        if isinstance(x, Bool):
            for y in x.a:
                go(y)
        elif isinstance(x, Poly):
            for a in x.atoms():
                if a not in seen:
                    seen.add(a)
                    for y in a.args:
                        go(y)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)
        elif isinstance(x, Atom) and x not in seen:
            seen.add(x)
            for y in x.args:
                go(y)
    go(g)
    return seen


import prover as _PR
_PR.LEMMA_HOOKS.append(ep_lemma)
