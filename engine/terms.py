"""Terms: integer polynomials over hash-consed atoms, and boolean formulas.

Integers are mathematical (unbounded).  Machine words are integers in [0, 2^N),
wrapped explicitly with Mod(_, 2^N).  Every constructor normalises, with rules that
are valid for all values of the atoms (no path condition is used here, except
through the optional `rg` range callback given by the caller)."""
import math
import random

INF = float('inf')
_atoms = {}
_atom_list = []


class Atom:
    __slots__ = ('kind', 'args', 'id', 'lo', 'hi', 'poly', '_fv', 'depth')

    def __repr__(s):
        return show_atom(s)

    def __hash__(s):
        return s.id

    def __lt__(s, o):
        return s.id < o.id


def _mk(kind, args, lo=-INF, hi=INF):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.id, a.lo, a.hi = kind, args, len(_atom_list), lo, hi
        a._fv = None
        a.depth = 0
        _atoms[key] = a
        _atom_list.append(a)
        a.poly = Poly({(a,): 1})
    return a


class Poly:
    __slots__ = ('m', '_h', '_k')

    def __init__(s, m):
        s.m = m
        s._h = None
        s._k = None

    def key(s):
        if s._k is None:
            s._k = tuple(sorted(((tuple(a.id for a in mo), c) for mo, c in s.m.items())))
        return s._k

    def __hash__(s):
        if s._h is None:
            s._h = hash(frozenset(s.m.items()))
        return s._h

    def __eq__(s, o):
        return s is o or (isinstance(o, Poly) and s.m == o.m)

    def is_const(s):
        return not s.m or (len(s.m) == 1 and () in s.m)

    def single(s):
        """c*atom + constant"""
        n = 0
        for mo in s.m:
            if mo:
                n += 1
                if len(mo) != 1:
                    return False
        return n <= 1

    def const(s):
        """the constant value, or None"""
        if not s.m:
            return 0
        if len(s.m) == 1 and () in s.m:
            return s.m[()]
        return None

    def atom(s):
        """the atom if the polynomial is exactly one atom, else None"""
        if len(s.m) == 1:
            (mo, c), = s.m.items()
            if c == 1 and len(mo) == 1:
                return mo[0]
        return None

    def atoms(s):
        r = set()
        for mo in s.m:
            r.update(mo)
        return r

    def __add__(s, o):
        o = P(o)
        if not o.m:
            return s
        if not s.m:
            return o
        if len(s.m) < len(o.m):
            s, o = o, s
        m = dict(s.m)
        for k, c in o.m.items():
            n = m.get(k, 0) + c
            if n:
                m[k] = n
            else:
                m.pop(k, None)
        return Poly(m)
    __radd__ = __add__

    def __neg__(s):
        return Poly({k: -c for k, c in s.m.items()})

    def __sub__(s, o):
        return s + (-P(o))

    def __rsub__(s, o):
        return P(o) + (-s)

    def scale(s, c):
        if c == 0:
            return ZERO
        if c == 1:
            return s
        return Poly({k: c * v for k, v in s.m.items()})

    def __mul__(s, o):
        o = P(o)
        c = o.const()
        if c is not None:
            return s.scale(c)
        c = s.const()
        if c is not None:
            return o.scale(c)
        m = {}
        for k1, c1 in s.m.items():
            for k2, c2 in o.m.items():
                k = mono_mul(k1, k2)
                n = m.get(k, 0) + c1 * c2
                if n:
                    m[k] = n
                else:
                    m.pop(k, None)
        return Poly(m)
    __rmul__ = __mul__

    def __pow__(s, n):
        r = ONE
        for _ in range(n):
            r = r * s
        return r

    def __repr__(s):
        return show(s)


def mono_mul(k1, k2):
    if not k1:
        return k2
    if not k2:
        return k1
    k = sorted(k1 + k2)
    # indicator atoms are idempotent
    out = []
    for a in k:
        if out and out[-1] is a and a.lo == 0 and a.hi == 1:
            continue
        out.append(a)
    return tuple(out)


ZERO = Poly({})
_kcache = {}


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        if -1024 <= x <= 1024:
            r = _kcache.get(x)
            if r is None:
                r = _kcache[x] = Poly({(): x}) if x else ZERO
            return r
        return Poly({(): x})
    if isinstance(x, Atom):
        return x.poly
    if isinstance(x, Bool):
        return B(x)
    raise TypeError(type(x))


ONE = P(1)
K = P


def S(name, lo=-INF, hi=INF):
    """a named symbol with an intrinsic range"""
    return _mk('sym', (name, lo, hi), lo, hi).poly


# ---------------------------------------------------------------- ranges
def _mulr(a, b):
    r = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                r.append(0)
            else:
                r.append(x * y if not (abs(x) == INF or abs(y) == INF) else (INF if (x > 0) == (y > 0) else -INF))
    return min(r), max(r)


def rng(p, rg=None):
    lo, hi = 0, 0
    for mo, c in p.m.items():
        if not mo:
            lo, hi = _addr(lo, c), _addr(hi, c)
            continue
        r = (1, 1)
        i = 0
        n = len(mo)
        while i < n:
            a = mo[i]
            j = i
            while j < n and mo[j] is a:
                j += 1
            ar = rg(a) if rg else (a.lo, a.hi)
            q = (1, 1)
            for _ in range(j - i):
                q = _mulr(q, ar)
            if (j - i) % 2 == 0:
                q = (max(q[0], 0), q[1])
            r = _mulr(r, q)
            i = j
        r = _mulr(r, (c, c))
        lo, hi = _addr(lo, r[0]), _addr(hi, r[1])
    return lo, hi


def _addr(x, y):
    return x + y


# ---------------------------------------------------------------- booleans
_bools = {}
_bool_list = []


class Bool:
    __slots__ = ('k', 'a', 'id')

    def __repr__(s):
        return show_bool(s)

    def __hash__(s):
        return s.id


def _mkb(k, *a):
    key = (k, a)
    b = _bools.get(key)
    if b is None:
        b = Bool()
        b.k, b.a, b.id = k, a, len(_bool_list)
        _bools[key] = b
        _bool_list.append(b)
    return b


TRUE = _mkb('T')
FALSE = _mkb('F')


def bconst(b):
    return TRUE if b else FALSE


def BApp(name, *args):
    """uninterpreted predicate"""
    return _mkb('app', name, tuple(args))


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.k == 'not':
        return b.a[0]
    if b.k == 'le':                         # not (p <= 0)  <=>  1 - p <= 0
        return le0(ONE - b.a[0])
    if b.k == 'and':
        return or_(*[not_(x) for x in b.a])
    if b.k == 'or':
        return and_(*[not_(x) for x in b.a])
    return _mkb('not', b)


def and_(*bs):
    s = {}
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        for x in (b.a if b.k == 'and' else (b,)):
            s[x.id] = x
    for x in s.values():
        if not_(x).id in s:
            return FALSE
    if not s:
        return TRUE
    l = sorted(s.values(), key=lambda b: b.id)
    if len(l) == 1:
        return l[0]
    return _mkb('and', *l)


def or_(*bs):
    s = {}
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        for x in (b.a if b.k == 'or' else (b,)):
            s[x.id] = x
    for x in s.values():
        if not_(x).id in s:
            return TRUE
    if not s:
        return FALSE
    l = sorted(s.values(), key=lambda b: b.id)
    if len(l) == 1:
        return l[0]
    return _mkb('or', *l)


def implies(a, b):
    return or_(not_(a), b)


def _content(p):
    g = 0
    for mo, c in p.m.items():
        if mo:
            g = math.gcd(g, c)
    return g


def le0(p, rg=None):
    """p <= 0"""
    c = p.const()
    if c is not None:
        return bconst(c <= 0)
    lo, hi = rng(p, rg)
    if hi <= 0:
        return TRUE
    if lo > 0:
        return FALSE
    g = _content(p)
    if g > 1:
        k = p.m.get((), 0)
        # g*q + k <= 0  <=> q <= floor(-k/g)  <=> q - floor(-k/g) <= 0
        q = {mo: c // g for mo, c in p.m.items() if mo}
        kk = -((-k) // g)
        if kk:
            q[()] = kk
        p = Poly(q)
    r = _pred_bool(p)
    if r is not None:
        return r
    if len(p.m) <= 3:                       # comparison of a 0/1 atom with a constant
        nz = [(mo, c) for mo, c in p.m.items() if mo]
        if len(nz) == 1 and len(nz[0][0]) == 1:
            a, c = nz[0][0][0], nz[0][1]
            k = p.m.get((), 0)
            if a.lo == 0 and a.hi == 1 and abs(c) == 1:
                v0, v1 = k <= 0, k + c <= 0
                b = a.args[0] if a.kind == 'b' else None
                if v0 and v1:
                    return TRUE
                if not v0 and not v1:
                    return FALSE
                return eq0(a.poly - 1) if v1 else eq0(a.poly)
    return _mkb('le', p)


def _pred_bool(p):
    """comparisons p <= 0 of a bit-length atom with a constant become bounds on the number"""
    nz = [(mo, c) for mo, c in p.m.items() if mo]
    if len(nz) == 1 and len(nz[0][0]) == 1:
        a, c = nz[0][0][0], nz[0][1]
        if a.kind == 'ndig' and abs(c) == 1:
            v, base = a.args
            k = p.m.get((), 0)
            if c == 1:                       # ndig <= -k
                n = -k
                if n <= 0:
                    return le0(v) if n == 0 and False else (FALSE if n < 1 else None)
                return le0(v - (base ** n - 1)) if n <= 1000 else None
            else:                            # k <= ndig
                n = k
                if n <= 1:
                    return TRUE
                if n > 1000:
                    return None
                return le0(P(base ** (n - 1)) - v)
        if a.kind == 'nbytes' and abs(c) == 1:
            v = a.args[0]
            k = p.m.get((), 0)
            if c == 1:
                n = -k
                if n < 0:
                    return FALSE
                return le0(v - (256 ** n - 1)) if n <= 100 else None
            else:
                n = k
                if n <= 0:
                    return TRUE
                if n > 100:
                    return None
                return le0(P(256 ** (n - 1)) - v)
    return None


def lt(a, b, rg=None):
    return le0(P(a) - P(b) + 1, rg)


def le(a, b, rg=None):
    return le0(P(a) - P(b), rg)


PRIMES = set()


def eq(a, b, rg=None):
    return eq0(P(a) - P(b), rg)


def _single_mod(p):
    """modulus shared by all atoms of a +-1 combination of canonical residues"""
    m = None
    for mo, c in p.m.items():
        if len(mo) == 1 and mo[0].kind == 'mod' and isinstance(mo[0].args[1], int):
            if m is None or m == mo[0].args[1]:
                m = mo[0].args[1]
            else:
                return None
    return m


def eq0(p, rg=None):
    c = p.const()
    if c is not None:
        return bconst(c == 0)
    lo, hi = rng(p, rg)
    if lo > 0 or hi < 0:
        return FALSE
    if lo == 0 and hi == 0:
        return TRUE
    g = _content(p)
    k = p.m.get((), 0)
    if g > 1:
        if k % g:
            return FALSE
        p = Poly({mo: c // g for mo, c in p.m.items()})
        k //= g
    m = _single_mod(p)
    if m is not None and m > 1:
        lo, hi = rng(p, rg)
        if -m < lo and hi < m:
            # p = 0  <=>  p = 0 (mod m)
            q = mod_strip(p, m)
            if q.const() is not None:
                return bconst(q.const() % m == 0)
            if m in PRIMES:
                lm = max(q.m, key=lambda mo: (len(mo), tuple(-a.id for a in mo)))
                lc = q.m[lm]
                if lc != 1:
                    q = mod_coef(q.scale(pow(lc, -1, m)), m)
            else:
                q = _sign(q, m)
            a = q.atom()
            if a is not None and 0 <= a.lo and a.hi < m:
                if a.kind == 'app' and a.args[0] in EQZERO:
                    return eq0(a.args[1])
                return _mkb('eq', q)
            return _mkb('eq', _mk('mod', (q, m), 0, m - 1).poly)
    nz = [(mo, c) for mo, c in p.m.items() if mo]
    if len(nz) == 1:
        mo, c = nz[0]
        if len(mo) == 1:
            a = mo[0]
            if a.lo == 0 and a.hi == 1:
                v = -k // c
                if v == 1:
                    return a.args[0] if a.kind == 'b' else _mkb('eq', a.poly - 1)
                return not_(a.args[0]) if a.kind == 'b' else not_(_mkb('eq', a.poly - 1))
            if a.kind == 'app' and a.args[0] in EQZERO and k == 0:
                return eq0(a.args[1])
    lm = min(p.m, key=lambda mo: (-len(mo), tuple(a.id for a in mo)))
    if p.m[lm] < 0:
        p = -p
    return _mkb('eq', p)


EQZERO = {}         # functions f with f(d) = 0 only for d = 0


def _sign(q, m):
    n = mod_coef(-q, m)
    return min(q, n, key=lambda t: t.key())


def B(b):
    """indicator: 1 if b else 0"""
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if b.k == 'not':
        return ONE - B(b.a[0])
    if b.k == 'le':
        p = b.a[0]
        lm = min((mo for mo in p.m if mo), key=lambda mo: (-len(mo), tuple(a.id for a in mo)), default=None)
        if lm is not None and p.m[lm] < 0:
            o = not_(b)
            if o.k == 'le':
                return ONE - _mk('b', (o,), 0, 1).poly
    if b.k == 'eq':
        p = b.a[0]
        nz = [(mo, c) for mo, c in p.m.items() if mo]
        if len(nz) == 1 and len(nz[0][0]) == 1:
            a = nz[0][0][0]
            if a.lo == 0 and a.hi == 1:
                k = p.m.get((), 0)
                return a.poly if k else ONE - a.poly
    return _mk('b', (b,), 0, 1).poly


def ite(c, p, q):
    p, q = P(p), P(q)
    if c is TRUE or p == q:
        return p
    if c is FALSE:
        return q
    pa, qa = p.atom(), q.atom()
    if pa is not None and qa is not None and pa.kind == 'app' and qa.kind == 'app' and pa.args[0] == qa.args[0] \
            and pa.args[0] in HOIST and len(pa.args) == len(qa.args):
        diff = [i for i in range(1, len(pa.args)) if pa.args[i] != qa.args[i]]
        if len(diff) == 1 and isinstance(pa.args[diff[0]], Poly):
            i = diff[0]
            args = list(pa.args[1:])
            args[i - 1] = ite(c, pa.args[i], qa.args[i])
            return App(pa.args[0], *args)
    if pa is not None and pa.kind == 'app' and pa.args[0] in HOIST and q.const() == 0 and HOIST[pa.args[0]]:
        args = list(pa.args[1:])
        args[-1] = ite(c, args[-1], ZERO)
        return App(pa.args[0], *args)
    if qa is not None and qa.kind == 'app' and qa.args[0] in HOIST and p.const() == 0 and HOIST[qa.args[0]]:
        args = list(qa.args[1:])
        args[-1] = ite(c, ZERO, args[-1])
        return App(qa.args[0], *args)
    m = None
    if pa is not None and pa.kind == 'mod' and isinstance(pa.args[1], int):
        m = pa.args[1]
    elif qa is not None and qa.kind == 'mod' and isinstance(qa.args[1], int):
        m = qa.args[1]
    if m is not None:
        rp, rq = rng(p), rng(q)
        if rp[0] >= 0 and rq[0] >= 0 and rp[1] < m and rq[1] < m:
            sp, sq = mod_strip(p, m), mod_strip(q, m)
            return Mod(sq + B(c) * mod_coef(sp - sq, m), m)
    return q + B(c) * (p - q)


HOIST = {}          # function name -> True if f(..,0)=0


def bite(c, x, y):
    if x is y:
        return x
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    ex = x.a[0] if x.k == 'eq' else (ZERO if x is TRUE else ONE if x is FALSE else None)
    ey = y.a[0] if y.k == 'eq' else (ZERO if y is TRUE else ONE if y is FALSE else None)
    if ex is not None and ey is not None and (x.k == 'eq' or y.k == 'eq'):
        return eq0(ite(c, ex, ey))
    return or_(and_(c, x), and_(not_(c), y))


# ---------------------------------------------------------------- mod / div
def mod_coef(p, m):
    d = {}
    for k, c in p.m.items():
        c %= m
        if c:
            d[k] = c
    return Poly(d)


_stripc = {}


def _strip_atom(a, m):
    """an atom congruent to a modulo m with inner reductions removed (as Poly)"""
    k = (a, m)
    r = _stripc.get(k)
    if r is not None:
        return r
    r = a.poly
    if a.kind == 'mod':
        mm = a.args[1]
        if isinstance(mm, int) and mm % m == 0:
            r = mod_strip(a.args[0], m)
        elif mm == m:
            r = mod_strip(a.args[0], m)
    elif a.kind == 'sum':
        body = mod_strip(a.args[0], m)
        if body != a.args[0]:
            r = Sum(body, a.args[1], var=bvar(a.args[2]))
    elif a.kind == 'prod':
        body = mod_strip(a.args[0], m)
        if body != a.args[0]:
            r = Prod(body, a.args[1], var=bvar(a.args[2]))
    _stripc[k] = r
    return r


def mod_strip(p, m):
    for _ in range(50):
        sub = None
        for mo in p.m:
            for a in mo:
                if a.kind in ('mod', 'sum', 'prod'):
                    t = _strip_atom(a, m)
                    if t.atom() is not a:
                        if sub is None:
                            sub = {}
                        sub[a] = t
        if not sub:
            break
        p = psub(p, sub, m if isinstance(m, int) else None)
    if isinstance(m, int):
        p = mod_coef(p, m)
    return p


def psub(p, sub, m=None):
    """substitute atoms at the top level of the polynomial only"""
    out = ZERO
    acc = {}
    for mo, c in p.m.items():
        if not any(a in sub for a in mo):
            acc[mo] = acc.get(mo, 0) + c
            continue
        t = Poly({tuple(a for a in mo if a not in sub): c})
        for a in mo:
            if a in sub:
                t = t * sub[a]
                if m:
                    t = mod_coef(t, m)
        out = out + t
    return out + Poly({k: c for k, c in acc.items() if c})


def Mod(p, m, rg=None):
    p = P(p)
    if isinstance(m, Poly):
        c = m.const()
        if c is not None:
            m = c
    if isinstance(m, int):
        if m <= 0:
            raise ValueError('modulus')
        if m == 1:
            return ZERO
        c = p.const()
        if c is not None:
            return P(c % m)
        lo, hi = rng(p, rg)
        if lo >= 0 and hi < m:
            return p
        if lo != -INF and hi != INF and lo // m == hi // m:
            return p - (lo // m) * m
        p = mod_strip(p, m)
        c = p.const()
        if c is not None:
            return P(c % m)
        lo, hi = rng(p, rg)
        if lo >= 0 and hi < m:
            return p
        # try the symmetric representative
        sy = Poly({k: (c if c <= m // 2 else c - m) for k, c in p.m.items()})
        lo, hi = rng(sy, rg)
        if lo >= 0 and hi < m:
            return sy
        lo, hi = rng_div(sy, rg)
        if lo >= 0 and hi < m:
            return sy
        # common factor g with m:  g*q mod m = g * (q mod m/g)
        g = m
        for c in p.m.values():
            g = math.gcd(g, c)
        if g > 1 and m % g == 0:
            return Mod(Poly({k: c // g for k, c in p.m.items()}), m // g, rg).scale(g)
        # split off an additive part that is already below the gap: p = g*q + r, 0<=r<g
        if m & (m - 1) == 0:
            r = _split_low(p, m, rg)
            if r is not None:
                return r
            a = p.atom()
            if a is not None and a.kind == 'bits':
                return bits_low(a, m.bit_length() - 1)
        return _mk('mod', (p, m), 0, m - 1).poly
    # symbolic modulus
    d = mod_strip(p, m)
    ma = _lead_mono(m)
    mc = m.m[ma] if ma is not None else 0
    if mc and (mc == 1 or len(m.m) == 1) and any(mono_div(k, ma) is not None for k in d.m):
        q = Poly({kk: c // mc for kk, c in ((mono_div(k, ma), c) for k, c in d.m.items()) if kk is not None and c // mc})
        if len(m.m) == 1:
            d = d - q * m
        else:
            r = d - q * m
            if rng(r, rg)[0] >= 0 and _lt_range(r, m, rg):
                return r
    lo, hi = rng(d, rg)
    if lo >= 0 and _lt_range(d, m, rg):
        return d
    return _mk('mod', (d, m), 0, INF).poly


def mod_negative(d, m):
    """of d and -d modulo m, is -d the canonical one?"""
    q = mod_strip(d, m)
    best = None
    for mo, c in q.m.items():
        k = tuple(a.id for a in mo)
        if best is None or k < best[0]:
            best = k, c
    return best is not None and best[1] > m // 2


def _split_low(p, m, rg):
    """p = hi + lo with hi a multiple of 2^k and 0 <= lo < 2^k  ->  Mod(hi) + lo"""
    ks = sorted({(c & -c) for mo, c in p.m.items() if mo and (c & -c) > 1}, reverse=True)
    for g in ks:
        if g >= m:
            continue
        hi = Poly({mo: c for mo, c in p.m.items() if c % g == 0})
        lo = Poly({mo: c for mo, c in p.m.items() if c % g})
        if not hi.m or not lo.m:
            continue
        l, h = rng(lo, rg)
        if l >= 0 and h < g:
            return Mod(hi, m, rg) + lo
    return None


DIVSIMPL = {}      # function -> (application, divisor) -> quotient or None


def Div(p, m, rg=None):
    """floor division by a positive number"""
    p = P(p)
    if isinstance(m, Poly):
        c = m.const()
        if c is not None:
            m = c
    if isinstance(m, int):
        assert m > 0
        if m == 1:
            return p
        c = p.const()
        if c is not None:
            return P(c // m)
        # pull out the multiples of m
        q, r = {}, {}
        for k, c in p.m.items():
            d, e = divmod(c, m)
            if k and d and e:
                d, e = 0, c
            if d:
                q[k] = d
            if e:
                r[k] = e
        q, r = Poly(q), Poly(r)
        if q.m:
            return q + Div(r, m, rg)
        lo, hi = rng(r, rg)
        if lo != -INF and hi != INF and lo // m == hi // m:
            return P(lo // m)
        g = m
        for c in r.m.values():
            g = math.gcd(g, c)
        if g > 1:
            return Div(Poly({k: c // g for k, c in r.m.items()}), m // g, rg)
        # p = hi + lo with hi multiple of g | m, 0<=lo<g
        for g in sorted({math.gcd(c, m) for mo, c in r.m.items() if mo}, reverse=True):
            if g <= 1:
                continue
            h = Poly({mo: c for mo, c in r.m.items() if c % g == 0})
            l = Poly({mo: c for mo, c in r.m.items() if c % g})
            if h.m and l.m:
                a, b = rng(l, rg)
                if a >= 0 and b < g:
                    return Div(h, m, rg)
        a = r.atom()
        if a is not None:
            if a.kind == 'div' and isinstance(a.args[1], int):
                return Div(a.args[0], a.args[1] * m, rg)
            if a.kind == 'app' and a.args[0] in DIVSIMPL:
                q = DIVSIMPL[a.args[0]](a, m)
                if q is not None:
                    return q
            if a.kind == 'div':
                d = _pow_shift(a.args[1], m)
                if d is not None:
                    return Div(a.args[0], d, rg)
            if a.kind == 'mod' and isinstance(a.args[1], int) and a.args[1] % m == 0:
                return Mod(Div(a.args[0], m, rg), a.args[1] // m, rg)
            if a.kind == 'bits' and m & (m - 1) == 0:
                return bits_high(a, m.bit_length() - 1)
        lo, hi = rng(r, rg)
        return _mk('div', (r, m), lo // m if lo != -INF else lo, hi // m if hi != INF else hi).poly
    # symbolic divisor (assumed positive by the caller)
    a = p.atom()
    if a is not None and a.kind == 'div':
        if isinstance(a.args[1], int):
            d = _pow_shift(m, a.args[1])
            if d is not None:
                return Div(a.args[0], d, rg)
        else:
            x, y = a.args[1].atom(), m.atom()
            if x is not None and y is not None and x.kind == y.kind == 'pow' and x.args[0] == y.args[0]:
                return Div(a.args[0], Pow(x.args[0], x.args[1] + y.args[1]), rg)
    # exact multiples
    q = pdiv_exact(p, m)
    if q is not None:
        return q
    # p = m*q + r with 0 <= r < m
    ma = _lead_mono(m)
    if ma is not None and m.m[ma] == 1:
        qd, rd = {}, {}
        for k, c in p.m.items():
            kk = mono_div(k, ma)
            if kk is not None:
                qd[kk] = c
            else:
                rd[k] = c
        if qd:
            q = Poly(qd)
            r = p - q * m
            l, h = rng(r, rg)
            if l >= 0 and _lt_range(r, m, rg):
                return q
    lo, hi = rng(p, rg)
    if lo >= 0 and _lt_range(p, m, rg):
        return ZERO
    return _mk('div', (p, _one_pow(m)), 0 if lo >= 0 else -INF, hi if hi != INF and hi > 0 else INF).poly


def rng_div(p, rg=None):
    """bounds through  c (q div d) = (c/d) (q - q mod d)"""
    r = ZERO
    hit = False
    for mo, c in p.m.items():
        a = mo[0] if len(mo) == 1 else None
        if a is not None and a.kind == 'div' and isinstance(a.args[1], int) and c % a.args[1] == 0:
            d = a.args[1]
            r = r + (a.args[0] - Mod(a.args[0], d, rg)).scale(c // d)
            hit = True
        else:
            r = r + Poly({mo: c})
    return rng(r, rg) if hit else (-INF, INF)


def _one_pow(m):
    """a product of powers of one base (and a constant power of it) as a single power"""
    if len(m.m) != 1:
        return m
    (mo, c), = m.m.items()
    if not mo or any(a.kind != 'pow' or not isinstance(a.args[0], int) or a.args[0] != mo[0].args[0] for a in mo) or len(mo) == 1 and c == 1:
        return m
    b, k = mo[0].args[0], 0
    while c % b == 0:
        c //= b
        k += 1
    if c != 1:
        return m
    e = P(k)
    for a in mo:
        e = e + a.args[1]
    return _mk('pow', (b, e), 1, INF).poly


def _pow_shift(d, m):
    """d * m for a power d = b^e and a constant power m of b, else None"""
    a = d.atom() if isinstance(d, Poly) else None
    if a is None or a.kind != 'pow' or not isinstance(a.args[0], int):
        return None
    b, k = a.args[0], 0
    while m % b == 0:
        m //= b
        k += 1
    return Pow(b, a.args[1] + k) if m == 1 and k else None


def _lt_range(r, m, rg):
    return rng(r - m, rg)[1] < 0 or lt_pow(r, m)


def lt_pow(r, m):
    """r < m where m = pow(b, e) atom and r is a canonical value below it (registered)"""
    a = r.atom()
    m = _one_pow(m)
    b = m.atom()
    if a is None or b is None:
        return False
    return (a, m) in BELOW or b.kind == 'pow' and b.args[0] == 256 and NBytes(r) == b.args[1]


BELOW = set()       # (atom, Poly m): intrinsic facts  0 <= atom < m, given by construction


def _lead_mono(m):
    if not m.m:
        return None
    k = max(m.m, key=lambda mo: (len(mo), tuple(a.id for a in mo)))
    return k if k else None


def mono_div(k, d):
    l = list(k)
    for a in d:
        if a in l:
            l.remove(a)
        else:
            return None
    return tuple(l)


def pdiv_exact(p, m):
    lm = _lead_mono(m)
    if lm is None:
        return None
    if len(m.m) == 1:
        c0 = m.m[lm]
        out = {}
        for k, c in p.m.items():
            kk = mono_div(k, lm)
            if kk is None or c % c0:
                return None
            out[kk] = c // c0
        return Poly(out)
    return None


# ---------------------------------------------------------------- other functions
def Inv(p, m):
    """the residue r in [0,m) with r*p = 1 (mod m); meaningful only for p != 0 (mod m), m prime"""
    p = mod_strip(P(p), m) if isinstance(m, int) else P(p)
    c = p.const()
    if c is not None:
        if math.gcd(c, m) == 1:
            return P(pow(c, -1, m))
        return _mk('inv', (p, m), 0, m - 1).poly
    if isinstance(m, int) and m in PRIMES:
        # normalise to a monic polynomial, and split a monomial
        if len(p.m) == 1:
            (mo, c), = p.m.items()
            if c != 1 or len(mo) > 1:
                r = P(pow(c, -1, m))
                for a in mo:
                    r = r * (_inv_atom(a.poly, m))
                return Mod(r, m)
            if mo[0].kind == 'inv' and mo[0].args[1] == m:
                pass
        else:
            lm = max(p.m, key=lambda mo: (len(mo), tuple(-a.id for a in mo)))
            lc = p.m[lm]
            if lc != 1:
                q = mod_coef(p.scale(pow(lc, -1, m)), m)
                return Mod(_inv_atom(q, m).scale(pow(lc, -1, m)), m)
    return _inv_atom(p, m)


def _inv_atom(p, m):
    return _mk('inv', (p, m), 0, (m - 1) if isinstance(m, int) else INF).poly


def PowM(b, e, m):
    b = mod_strip(P(b), m) if isinstance(m, int) else P(b)
    e = P(e)
    if b.const() is not None and e.const() is not None and isinstance(m, int) and e.const() >= 0:
        return P(pow(b.const(), e.const(), m))
    if e.const() is not None and 0 <= e.const() <= 4:
        return Mod(b ** e.const(), m)
    if isinstance(m, int) and m in PRIMES and e.const() == m - 2:
        return Inv(b, m)
    return _mk('powm', (b, e, m), 0, m - 1 if isinstance(m, int) else INF).poly


def Pow(base, e):
    """base^e, base an int >= 2 (or any int), e >= 0"""
    e = P(e)
    c = e.const()
    if c is not None and c >= 0:
        return P(base ** c)
    k = e.m.get((), 0)
    r = ONE
    # base^(e0 + c) = base^e0 * base^c for the constant part, products for the sums
    rest = Poly({mo: c for mo, c in e.m.items() if mo})
    if k > 5000:
        return _mk('pow', (base, e), 1, INF).poly
    if k > 0:
        r = P(base ** k)
        e = rest
    parts = [Poly({mo: c}) for mo, c in e.m.items()] if all(c > 0 for c in e.m.values()) else [e]
    for q in parts:
        (mo, c) = next(iter(q.m.items())) if len(q.m) == 1 else (None, None)
        if mo is not None and c > 1 and len(mo) >= 1 and all(a.lo >= 0 for a in mo):
            at = _mk('pow', (base, Poly({mo: 1})), 1, INF).poly
            for _ in range(c if c <= 16 else 1):
                r = r * at
            if c > 16:
                r = r * ONE
                return _mk('pow', (base, e), 1, INF).poly * (base ** k if k > 0 else 1)
        else:
            r = r * _mk('pow', (base, q), 1, INF).poly
    return r


def App(name, *args, lo=None, hi=None):
    """uninterpreted (or spec) function"""
    args = tuple(P(a) if isinstance(a, (int, Poly, Atom)) and not isinstance(a, bool) else a for a in args)
    s = SIMPL.get(name)
    if s:
        r = s(*args)
        if r is not None:
            return r
    if lo is None:
        lo, hi = APP_RANGE.get(name, (-INF, INF))
    return _mk('app', (name,) + args, lo, hi).poly


APP_RANGE = {}
SIMPL = {}


def Bit(p, k):
    """bit k (constant k) of a non-negative integer"""
    p = P(p)
    c = p.const()
    if c is not None:
        return P((c >> k) & 1)
    lo, hi = rng(p)
    if lo >= 0 and hi < (1 << k):
        return ZERO
    c = mod_coef(p, 2 << k).const()
    if c is not None:
        return P((c >> k) & 1)
    a = p.atom()
    if a is not None:
        if a.kind == 'bits':
            return _bitsform_to_poly(a.args[0][k]) if k < len(a.args[0]) else ZERO
        if a.kind == 'div' and isinstance(a.args[1], int) and a.args[1] & (a.args[1] - 1) == 0:
            return Bit(a.args[0], k + a.args[1].bit_length() - 1)
        if a.kind == 'mod' and isinstance(a.args[1], int) and a.args[1] & (a.args[1] - 1) == 0:
            n = a.args[1].bit_length() - 1
            return Bit(a.args[0], k) if k < n else ZERO
    return _mk('bit', (p, k), 0, 1).poly


def BitSym(p, k):
    """bit k of p, symbolic k"""
    k = P(k)
    c = k.const()
    if c is not None:
        return Bit(p, c) if c >= 0 else ZERO
    return _mk('bits_at', (P(p), k), 0, 1).poly


def NDigits(p, base):
    """number of digits of p >= 0 written in `base`, at least 1"""
    p = P(p)
    c = p.const()
    if c is not None:
        n = 1
        while c >= base:
            c //= base
            n += 1
        return P(n)
    lo, hi = rng(p)
    return _mk('ndig', (p, base), 1, INF if hi == INF else NDigits(P(hi), base).const()).poly


def NBytes(p):
    """minimal number of bytes of p >= 0 (0 for 0)"""
    p = P(p)
    c = p.const()
    if c is not None:
        return P((c.bit_length() + 7) // 8)
    s = SIMPL.get('nbytes')
    if s:
        r = s(p)
        if r is not None:
            return r
    # c 256^e + r with c > 0 and 0 <= r < 256^e
    for mo, c in p.m.items():
        if len(mo) == 1 and mo[0].kind == 'pow' and mo[0].args[0] == 256 and c > 0:
            r = p - Poly({mo: c})
            if rng(r)[0] >= 0:
                k = 0
                while c % 256 == 0:
                    c //= 256
                    k += 1
                if not r.m or any(_lt_range(r, Poly({mo: 256 ** j}), None) for j in range(k + 1)):
                    return mo[0].args[1] + k + NBytes(c)
    # 256^k q + r with q > 0 and 0 <= r < 256^k
    for mo, c in p.m.items():
        k = 0
        while c % 256 == 0:
            c //= 256
            k += 1
        if k and mo:
            h = Poly({m: x for m, x in p.m.items() if x % 256 ** k == 0})
            l = p - h
            a, b = rng(l)
            q = Poly({m: x // 256 ** k for m, x in h.m.items()})
            if a >= 0 and b < 256 ** k and rng(q)[0] >= 1:
                return NBytes(q) + k
    lo, hi = rng(p)
    return _mk('nbytes', (p,), (int(lo).bit_length() + 7) // 8 if lo > 0 and lo != INF else 0, INF if hi == INF else (int(hi).bit_length() + 7) // 8).poly


# ---------------------------------------------------------------- sums and products
def bvar(i):
    return _mk('bv', (i,), 0, INF)


def _maxbv(p, seen=None):
    """1 + the largest bound-variable index bound inside p (0 if none)"""
    r = 0
    for a in p.atoms():
        r = max(r, adepth(a))
    return r


_adepth = {}


def adepth(a):
    d = _adepth.get(a)
    if d is None:
        d = 0
        if a.kind in ('sum', 'prod'):
            d = a.args[2] + 1
            d = max(d, _maxbv(a.args[1]))
        for x in a.args:
            if isinstance(x, Poly):
                d = max(d, _maxbv(x))
            elif isinstance(x, Bool):
                d = max(d, bdepth(x))
        _adepth[a] = d
    return d


def bdepth(b):
    d = 0
    for x in b.a:
        if isinstance(x, Poly):
            d = max(d, _maxbv(x))
        elif isinstance(x, Bool):
            d = max(d, bdepth(x))
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Poly):
                    d = max(d, _maxbv(y))
    return d


def Sum(body, n, var):
    """sum of body over var = 0..n-1 (0 if n <= 0).  var: Atom (symbol or bound)"""
    return _big('sum', body, n, var)


def Prod(body, n, var):
    return _big('prod', body, n, var)


def _big(kind, body, n, var):
    body, n = P(body), P(n)
    c = n.const()
    if c is not None and c <= 0:
        return ZERO if kind == 'sum' else ONE
    if c is not None and c <= 8:
        r = ZERO if kind == 'sum' else ONE
        for i in range(c):
            t = subst(body, {var: P(i)})
            r = r + t if kind == 'sum' else r * t
        return r
    if kind == 'sum':
        out = ZERO
        for mo, c in body.m.items():
            inn, outm = [], []
            for a in mo:
                (inn if var in fv(a) else outm).append(a)
            o = Poly({tuple(outm): c})
            at = next((a for a in inn if a.kind == 'b' and a.args[0].k == 'eq' and _only(a.args[0].a[0], var, n) is not None), None)
            if at is not None:
                # exactly one index has the property
                i = _only(at.args[0].a[0], var, n)
                out = out + o * B(lt(i, n)) * subst(Poly({tuple(a for a in inn if a is not at): 1}), {var: i})
                continue
            if not inn:
                nn = n if rng(n)[0] >= 0 else _mk('max0', (n,), 0, INF).poly
                out = out + o * nn
            elif len(inn) == 1 and inn[0] is var and False:
                pass
            else:
                out = out + o * _bigatom('sum', Poly({tuple(inn): 1}), n, var)
        return out
    # product: split a monomial
    if len(body.m) == 1:
        (mo, c), = body.m.items()
        r = ONE
        if c != 1:
            r = r * (Pow(c, n) if c > 1 else _mk('powneg', (c, n)).poly)
        for a in mo:
            if var in fv(a):
                r = r * _bigatom('prod', a.poly, n, var)
            else:
                r = r * _mk('gpow', (a.poly, n), a.lo if a.lo >= 0 else -INF, INF).poly
        return r
    if not body.m:
        return _bigatom('prod', body, n, var)
    if not any(var in fv(a) for a in body.atoms()):
        return _mk('gpow', (body, n)).poly
    return _bigatom('prod', body, n, var)


def _only(p, var, n):
    """the index i in [0, n) with p = 0 <=> var = i"""
    c = p.m.get((var,))
    if c not in (1, -1):
        return None
    r = (p - var.poly.scale(c)).scale(-c)
    if var in _fvx(r) or rng(r)[0] < 0:
        return None
    return r


def _bigatom(kind, body, n, var):
    d = _maxbv(body)
    free = _fvx(body)
    while bvar(d) is not var and bvar(d) in free:       # bound further out
        d += 1
    bv = bvar(d)
    if bv is not var:
        body = subst(body, {var: bv.poly})
    unit, comb = (ZERO, lambda x, y: x + y) if kind == 'sum' else (ONE, lambda x, y: x * y)
    # the last terms of  sum over j < m + c
    c = n.m.get((), 0)
    if 0 < c <= 8 and len(n.m) > 1 and rng(n - c)[0] >= 0:
        r = _bigatom(kind, body, n - c, bv)
        for i in range(c):
            r = comb(r, subst(body, {bv: n - c + i}))
        return r
    # sum over j < m - c  =  sum over j < m, less the last c terms
    if kind == 'sum' and -8 <= c < 0 and len(n.m) > 1 and rng(n)[0] >= 0:
        r = _bigatom(kind, body, n - c, bv)
        for i in range(-c):
            r = r - subst(body, {bv: n + i})
        return r
    # sum over j < n of f(n - 1 - j)  =  sum over j < n of f(j)
    if _reversed(body, bv):
        return _big(kind, subst(body, {bv: n - 1 - bv.poly}), n, bv)
    # sum over j < n of f(j + c)  =  sum over j < n + c of f(j), less the first c terms
    if kind == 'sum':
        c = _shift_of(body, bv)
        if c and abs(c) <= 8 and rng(n)[0] >= 0 and rng(n + c)[0] >= 0:
            f = subst(body, {bv: bv.poly - c})
            r = _big(kind, f, n + c, bv)
            for i in range(c):
                r = r - subst(f, {bv: P(i)})
            for i in range(c, 0):
                r = r + subst(body, {bv: P(i - c)})
            return r
    lo = 0 if rng(body)[0] >= 0 else -INF
    return _mk(kind, (body, n, d), lo, INF).poly


def _reversed(body, bv):
    """does the bound variable occur in the arguments of functions as c - bv only?"""
    cs = set()

    def go(p, arg):
        if arg:
            for mo, k in p.m.items():
                if bv in mo:
                    cs.add(mo == (bv,) and k == -1)
        for a in p.atoms():
            if a is not bv and bv in fv(a):
                if a.kind in ('sum', 'prod'):
                    cs.add(False)
                for x in a.args:
                    if isinstance(x, Poly):
                        go(x, a.kind == 'app')
    go(body, False)
    return cs == {True}


def _shift_of(body, bv):
    """least c such that the bound variable occurs as bv + c in a function argument"""
    cs = set()

    def go(p, arg):
        if arg:
            for mo, k in p.m.items():
                if bv in mo:
                    if mo == (bv,) and k == 1:
                        cs.add(p.m.get((), 0))
                    else:
                        cs.add(None)
        for a in p.atoms():
            if a is not bv and bv in fv(a):
                if a.kind in ('sum', 'prod'):
                    cs.add(None)
                for x in a.args:
                    if isinstance(x, Poly):
                        go(x, a.kind == 'app')
    go(body, False)
    if not cs or None in cs:
        return None
    return min(cs)


# ---------------------------------------------------------------- free atoms / substitution
_fvc = {}


def fv(a):
    """set of leaf atoms (sym, bv) an atom depends on (bound variables excluded)"""
    if a._fv is None:
        if a.kind in ('sym', 'bv'):
            a._fv = frozenset([a])
        else:
            s = set()
            for x in a.args:
                s |= _fvx(x)
            if a.kind in ('sum', 'prod'):
                s -= {bvar(a.args[2])}
                s |= _fvx(a.args[1])
            a._fv = frozenset(s)
    return a._fv


def _fvx(x):
    if isinstance(x, Poly):
        r = set()
        for a in x.atoms():
            r |= fv(a)
        return r
    if isinstance(x, Bool):
        return fvb(x)
    if isinstance(x, tuple):
        r = set()
        for y in x:
            r |= _fvx(y)
        return r
    if isinstance(x, Atom):
        return fv(x)
    if isinstance(x, frozenset):
        r = set()
        for y in x:
            r |= _fvx(y)
        return r
    return set()


_fvbc = {}


def fvb(b):
    r = _fvbc.get(b.id)
    if r is None:
        r = set()
        for x in b.a:
            r |= _fvx(x)
        _fvbc[b.id] = r = frozenset(r)
    return r


def fvp(p):
    return _fvx(p)


def subst(p, sub, rg=None, memo=None):
    """replace leaf (or any) atoms everywhere, rebuilding with normalisation"""
    if memo is None:
        memo = {}
    ks = memo.get('#leaf')
    if ks is None:
        ks = memo['#leaf'] = (frozenset(a for a in sub), all(a.kind in ('sym', 'bv') for a in sub))
    return _sub(p, sub, rg, memo)


def _touch(a, ks):
    return (not ks[1]) or bool(fv(a) & ks[0])


def _sub(p, sub, rg, memo):
    ks = memo['#leaf']
    r = memo.get(p)
    if r is not None:
        return r
    acc = {}
    out = ZERO
    for mo, c in p.m.items():
        tt = None
        for i, a in enumerate(mo):
            if a in sub or _touch(a, ks):
                na = _suba(a, sub, rg, memo)
                if na.atom() is not a:
                    if tt is None:
                        tt = {}
                    tt[i] = na
        if tt is None:
            acc[mo] = acc.get(mo, 0) + c
        else:
            t = Poly({tuple(a for i, a in enumerate(mo) if i not in tt): c})
            for i in tt:
                t = t * tt[i]
            out = out + t
    r = out + Poly({k: c for k, c in acc.items() if c})
    memo[p] = r
    return r


def _suba(a, sub, rg, memo):
    if a in sub:
        return P(sub[a])
    key = ('a', a)
    r = memo.get(key)
    if r is None:
        r = memo[key] = _suba2(a, sub, rg, memo)
    return r


def rebuild(a, f, fb, rg=None):
    """rebuild an atom applying f to Poly arguments and fb to Bool arguments"""
    k = a.kind
    if k in ('sym', 'bv'):
        return a.poly
    A = a.args
    if k == 'mod':
        return Mod(f(A[0]), A[1] if isinstance(A[1], int) else f(A[1]), rg)
    if k == 'div':
        return Div(f(A[0]), A[1] if isinstance(A[1], int) else f(A[1]), rg)
    if k == 'inv':
        return Inv(f(A[0]), A[1])
    if k == 'powm':
        return PowM(f(A[0]), f(A[1]), A[2])
    if k == 'pow':
        return Pow(A[0], f(A[1]))
    if k == 'gpow':
        return gpow(f(A[0]), f(A[1]))
    if k == 'powneg':
        n = f(A[1])
        return P(A[0] ** n.const()) if n.const() is not None else _mk('powneg', (A[0], n)).poly
    if k == 'b':
        return B(fb(A[0]))
    if k == 'bit':
        return Bit(f(A[0]), A[1])
    if k == 'bits_at':
        return BitSym(f(A[0]), f(A[1]))
    if k == 'ndig':
        return NDigits(f(A[0]), A[1])
    if k == 'nbytes':
        return NBytes(f(A[0]))
    if k == 'max0':
        n = f(A[0])
        return max0(n)
    if k == 'bits':
        return bits_make([_bits_sub(fm, f, fb) for fm in A[0]])
    if k == 'app':
        return App(A[0], *[f(x) if isinstance(x, Poly) else fb(x) if isinstance(x, Bool) else x for x in A[1:]],
                   **({} if A[0] in APP_RANGE else dict(lo=a.lo, hi=a.hi)))
    raise NotImplementedError(k)


def max0(n):
    n = P(n)
    lo, hi = rng(n)
    if lo >= 0:
        return n
    if hi <= 0:
        return ZERO
    return _mk('max0', (n,), 0, INF if hi == INF else hi).poly


def gpow(b, n):
    c = n.m.get((), 0)
    if 0 < c <= 8 and len(n.m) > 1 and rng(n - c)[0] >= 0:
        return gpow(b, n - c) * b ** c
    c = n.const()
    if c is not None and 0 <= c <= 64:
        return b ** c
    bc = b.const()
    if bc is not None:
        if bc == 1:
            return ONE
        if bc > 1:
            return Pow(bc, n)
    return _mk('gpow', (b, n)).poly


def _suba2(a, sub, rg, memo):
    if a.kind in ('sum', 'prod'):
        n = _sub(a.args[1], sub, rg, memo)
        bv = bvar(a.args[2])
        # avoid capture: rename to a fresh variable above everything involved
        d = 1 + max([a.args[2], adepth(a)] + [max((x.args[0] for x in fvp(v) if x.kind == 'bv'), default=-1) + 1
                                            for v in map(P, sub.values())] + [_maxbv(P(v)) for v in sub.values()] +
                    [x.args[0] for x in set(sub) | set(fv(a)) if x.kind == 'bv'])
        nv = bvar(d)
        body = subst(subst(a.args[0], {bv: nv.poly}), sub, rg)
        return _big(a.kind, body, n, nv)
    return rebuild(a, lambda p: _sub(p, sub, rg, memo), lambda b: _subb(b, sub, rg, memo), rg)


def substb(b, sub, rg=None, memo=None):
    if memo is None:
        memo = {}
    if '#leaf' not in memo:
        memo['#leaf'] = (frozenset(a for a in sub), all(a.kind in ('sym', 'bv') for a in sub))
    return _subb(b, sub, rg, memo)


def _subb(b, sub, rg, memo):
    ks = memo['#leaf']
    if ks[1] and not (fvb(b) & ks[0]):
        return b
    key = ('B', b.id)
    r = memo.get(key)
    if r is None:
        r = memo[key] = mapb(b, lambda p: _sub(p, sub, rg, memo), lambda x: _subb(x, sub, rg, memo), rg)
    return r


def mapb(b, f, fb, rg=None):
    if b.k in ('T', 'F'):
        return b
    if b.k == 'eq':
        return eq0(f(b.a[0]), rg)
    if b.k == 'le':
        return le0(f(b.a[0]), rg)
    if b.k == 'not':
        return not_(fb(b.a[0]))
    if b.k == 'and':
        return and_(*[fb(x) for x in b.a])
    if b.k == 'or':
        return or_(*[fb(x) for x in b.a])
    if b.k == 'app':
        s = BSIMPL.get(b.a[0])
        args = [f(x) if isinstance(x, Poly) else x for x in b.a[1]]
        if s:
            r = s(*args)
            if r is not None:
                return r
        return BApp(b.a[0], *args)
    raise NotImplementedError(b.k)


BSIMPL = {}


# ---------------------------------------------------------------- GF(2)-affine words
# a form is (frozenset of 0/1 atoms, const bit); a word is a tuple of forms, LSB first.
def bits_of(p, width):
    """forms of the low `width` bits of p (p >= 0), exact"""
    p = P(p)
    c = p.const()
    if c is not None:
        return tuple((frozenset(), (c >> i) & 1) for i in range(width))
    a = p.atom()
    if a is not None:
        if a.kind == 'bits':
            f = a.args[0]
            return tuple(f[i] if i < len(f) else (frozenset(), 0) for i in range(width))
        if a.kind == 'mod' and isinstance(a.args[1], int) and a.args[1] & (a.args[1] - 1) == 0:
            n = a.args[1].bit_length() - 1
            f = _bits_pieces(a.args[0], min(n, width))
            if f is None:
                f = tuple((frozenset([_mk('bit', (a.args[0], i), 0, 1)]), 0) for i in range(min(n, width)))
            return tuple(f) + tuple((frozenset(), 0) for _ in range(width - len(f)))
        if a.kind == 'div' and isinstance(a.args[1], int) and a.args[1] & (a.args[1] - 1) == 0 and rng(a.args[0])[0] >= 0:
            n = a.args[1].bit_length() - 1
            return bits_of(a.args[0], width + n)[n:]
        if a.lo == 0 and a.hi == 1:
            return tuple((frozenset([a]), 0) if i == 0 else (frozenset(), 0) for i in range(width))
        if a.lo >= 0:
            out = []
            for i in range(width):
                b = Bit(p, i)
                ba = b.atom()
                out.append((frozenset([ba]), 0) if ba is not None else (frozenset(), b.const()))
            return tuple(out)
    f = _bits_pieces(p, width)
    if f is not None:
        return f
    lo, hi = rng(p)
    if lo >= 0:
        return tuple((frozenset([Bit(p, i).atom()]), 0) if Bit(p, i).atom() is not None else (frozenset(), Bit(p, i).const())
                     for i in range(width))
    return tuple((frozenset([_mk('bit', (p, i), 0, 1)]), 0) for i in range(width))


def _bits_pieces(p, width):
    """sums of disjoint pieces c_i * a_i with non-overlapping bit ranges (or a single atom)"""
    if p.atom() is not None and p.atom().lo >= 0 or p.const() is not None:
        return bits_of(p, width)
    pieces = []
    for mo, c in p.m.items():
        if c <= 0:
            return None
        sh = (c & -c).bit_length() - 1
        if mo and c != 1 << sh:
            return None
        q = Poly({mo: 1}) if mo else P(c)
        if not mo:
            sh = 0
        lo, hi = rng(q)
        if lo < 0 or hi == INF:
            return None
        pieces.append((sh, int(hi).bit_length(), q, c if not mo else None))
    used = 0
    out = [(frozenset(), 0)] * width
    for sh, n, q, cc in pieces:
        mask = cc if cc is not None else ((1 << n) - 1) << sh
        if used & mask:
            return None
        used |= mask
        if len(q.m) == 1 and len(next(iter(q.m))) > 1:
            return None
        f = bits_of(q, n)
        for i in range(n):
            if sh + i < width and (f[i][0] or f[i][1]):
                out[sh + i] = f[i]
    return tuple(out)


def form_xor(a, b):
    return (a[0] ^ b[0], a[1] ^ b[1])


def bits_make(forms):
    """word value of a tuple of forms, as the simplest Poly"""
    forms = tuple(forms)
    n = len(forms)
    while n and forms[n - 1] == (frozenset(), 0):
        n -= 1
    forms = forms[:n]
    if not forms:
        return ZERO
    if all(not f[0] for f in forms):
        return P(sum(f[1] << i for i, f in enumerate(forms)))
    # recognise  bits [s, s+n) of some integer p, shifted by k
    k = 0
    while forms[k] == (frozenset(), 0):
        k += 1
    body = forms[k:]
    src, s0 = None, None
    ok = True
    for i, f in enumerate(body):
        if f[1] or len(f[0]) != 1:
            ok = False
            break
        a = next(iter(f[0]))
        if a.kind == 'bit':
            q, b = a.args
        else:
            ok = False
            break
        if src is None:
            src, s0 = q, b
        elif q != src or b != s0 + i:
            ok = False
            break
    if ok and src is not None:
        v = Div(src, 1 << s0)
        v = Mod(v, 1 << len(body))
        return v.scale(1 << k)
    if sum(1 for f in forms if f[0]) == 1:
        i, f = next((i, f) for i, f in enumerate(forms) if f[0])
        cst = sum(g[1] << j for j, g in enumerate(forms) if not g[0])
        if len(f[0]) == 1:
            a = next(iter(f[0]))
            t = a.poly if not f[1] else ONE - a.poly
            return t.scale(1 << i) + cst
    return _mk('bits', (forms,), 0, (1 << len(forms)) - 1).poly


def bits_low(a, n):
    return bits_make(a.args[0][:n])


def bits_high(a, n):
    return bits_make(a.args[0][n:])


def _bitsform_to_poly(f):
    if not f[0]:
        return P(f[1])
    if len(f[0]) == 1:
        a = next(iter(f[0]))
        return a.poly if not f[1] else ONE - a.poly
    return _mk('bits', ((f,),), 0, 1).poly


def _bits_sub(fm, f, fb=None):
    s, c = frozenset(), fm[1]
    for a in fm[0]:
        p = rebuild(a, f, fb) if a.kind != 'sym' else f(a.poly)
        g = bits_of(p, 1)[0]
        s ^= g[0]
        c ^= g[1]
    return (s, c)


def Xor(p, q, width):
    p, q = P(p), P(q)
    if p == q:
        return ZERO
    if p.const() == 0:
        return q
    if q.const() == 0:
        return p
    a, b = bits_of(p, width), bits_of(q, width)
    return bits_make([form_xor(x, y) for x, y in zip(a, b)])


def And(p, q, width):
    p, q = P(p), P(q)
    if q.const() is None:
        p, q = q, p
    c = q.const()
    if c is None:
        if p == q:
            return p
        a, b = bits_of(p, width), bits_of(q, width)
        out = []
        for x, y in zip(a, b):
            if not x[0]:
                out.append(y if x[1] else (frozenset(), 0))
            elif not y[0]:
                out.append(x if y[1] else (frozenset(), 0))
            elif x == y:
                out.append(x)
            else:
                pa, pb = _bitsform_to_poly(x), _bitsform_to_poly(y)
                pr = pa * pb
                at = _mk('b', (and_(eq0(pa - 1), eq0(pb - 1)),), 0, 1)
                out.append((frozenset([at]), 0))
        return bits_make(out)
    c &= (1 << width) - 1
    if c == 0:
        return ZERO
    if c == (1 << width) - 1:
        return p
    if c & (c + 1) == 0:                    # low mask
        return Mod(p, c + 1)
    low = (c & -c).bit_length() - 1
    d = c >> low
    if d & (d + 1) == 0:                    # contiguous mask
        return Mod(Div(p, 1 << low), d + 1).scale(1 << low)
    f = bits_of(p, width)
    return bits_make([f[i] if (c >> i) & 1 else (frozenset(), 0) for i in range(width)])


def Or(p, q, width):
    p, q = P(p), P(q)
    if p.const() == 0:
        return q
    if q.const() == 0:
        return p
    if p == q:
        return p
    a, b = bits_of(p, width), bits_of(q, width)
    zero = (frozenset(), 0)
    if all(x == zero or y == zero for x, y in zip(a, b)):
        return p + q
    out = []
    for x, y in zip(a, b):
        if x == zero:
            out.append(y)
        elif y == zero:
            out.append(x)
        elif x == y:
            out.append(x)
        elif not x[0] and x[1] or not y[0] and y[1]:
            out.append((frozenset(), 1))
        else:
            pa, pb = _bitsform_to_poly(x), _bitsform_to_poly(y)
            at = _mk('b', (or_(eq0(pa - 1), eq0(pb - 1)),), 0, 1)
            out.append((frozenset([at]), 0))
    return bits_make(out)


# ---------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


FUN = {}            # name -> python function for 'app' atoms and predicates


def ev(p, env, memo=None):
    """evaluate to an int.  env: Atom -> int for sym/bv; may be a callable default"""
    if memo is None:
        memo = {}
    t = 0
    for mo, c in p.m.items():
        v = c
        for a in mo:
            v *= eva(a, env, memo)
        t += v
    return t


def eva(a, env, memo):
    k = a.kind
    if k in ('sym', 'bv'):
        return env[a]
    r = memo.get(a)
    if r is not None:
        return r
    A = a.args
    if k == 'mod':
        m = A[1] if isinstance(A[1], int) else ev(A[1], env, memo)
        r = ev(A[0], env, memo) % m
    elif k == 'div':
        m = A[1] if isinstance(A[1], int) else ev(A[1], env, memo)
        r = ev(A[0], env, memo) // m
    elif k == 'inv':
        v = ev(A[0], env, memo) % A[1]
        if math.gcd(v, A[1]) != 1:
            raise EvalError('inverse of non-unit')
        r = pow(v, -1, A[1])
    elif k == 'powm':
        e = ev(A[1], env, memo)
        r = pow(ev(A[0], env, memo), e, A[2] if isinstance(A[2], int) else ev(A[2], env, memo))
    elif k in ('pow', 'powneg'):
        r = A[0] ** ev(A[1], env, memo)
    elif k == 'gpow':
        n = ev(A[1], env, memo)
        if n > 10000:
            raise EvalError('gpow')
        r = ev(A[0], env, memo) ** n
    elif k == 'b':
        r = int(evb(A[0], env, memo))
    elif k == 'bit':
        r = (ev(A[0], env, memo) >> A[1]) & 1
    elif k == 'bits_at':
        r = (ev(A[0], env, memo) >> ev(A[1], env, memo)) & 1
    elif k == 'ndig':
        r = NDigits(P(ev(A[0], env, memo)), A[1]).const()
    elif k == 'nbytes':
        r = (ev(A[0], env, memo).bit_length() + 7) // 8
    elif k == 'max0':
        r = max(0, ev(A[0], env, memo))
    elif k == 'bits':
        r = 0
        for i, f in enumerate(A[0]):
            b = f[1]
            for x in f[0]:
                b ^= eva(x, env, memo)
            r |= b << i
    elif k in ('sum', 'prod'):
        n = ev(A[1], env, memo)
        if n > 3000:
            raise EvalError('sum')
        bv = bvar(A[2])
        r = 0 if k == 'sum' else 1
        for i in range(n):
            e2 = ChainEnv(env, bv, i)
            v = ev(A[0], e2, {})
            r = r + v if k == 'sum' else r * v
    elif k == 'app':
        f = FUN.get(A[0])
        args = tuple(ev(x, env, memo) if isinstance(x, Poly) else evb(x, env, memo) if isinstance(x, Bool) else x for x in A[1:])
        if f is None:
            r = env_app(env, A[0], args, a)
        else:
            r = f(*args)
    else:
        raise EvalError(k)
    memo[a] = r
    return r


class ChainEnv:
    def __init__(s, base, k, v):
        s.base, s.k, s.v = base, k, v

    def __getitem__(s, a):
        return s.v if a is s.k else s.base[a]

    def app(s, name, args, atom):
        return env_app(s.base, name, args, atom)


def env_app(env, name, args, atom):
    f = getattr(env, 'app', None)
    if f is None:
        raise EvalError('app ' + name)
    return f(name, args, atom)


def evb(b, env, memo=None):
    if memo is None:
        memo = {}
    k = b.k
    if k == 'T':
        return True
    if k == 'F':
        return False
    if k == 'eq':
        return ev(b.a[0], env, memo) == 0
    if k == 'le':
        return ev(b.a[0], env, memo) <= 0
    if k == 'not':
        return not evb(b.a[0], env, memo)
    if k == 'and':
        return all(evb(x, env, memo) for x in b.a)
    if k == 'or':
        return any(evb(x, env, memo) for x in b.a)
    if k == 'app':
        f = FUN.get(b.a[0])
        args = tuple(ev(x, env, memo) if isinstance(x, Poly) else x for x in b.a[1])
        if f is None:
            return bool(env_app(env, b.a[0], args, None))
        return bool(f(*args))
    raise EvalError(k)


# ---------------------------------------------------------------- printing
def _num(c):
    return str(c) if abs(c) < 10 ** 7 else hex(c)


def show(p):
    if not p.m:
        return '0'
    out = []
    for mo, c in sorted(p.m.items(), key=lambda t: (len(t[0]), [a.id for a in t[0]]))[:40]:
        s = '*'.join(show_atom(a) for a in mo)
        if not mo:
            s = _num(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = _num(c) + '*' + s
        out.append(s)
    if len(p.m) > 40:
        out.append(f'...({len(p.m)} terms)')
    return ' + '.join(out)


def show_atom(a):
    A = a.args
    if a.kind == 'sym':
        return str(A[0])
    if a.kind == 'bv':
        return '#' + str(A[0])
    if a.kind == 'mod':
        return f'({A[0]} mod {NAMES.get(A[1], A[1] if not isinstance(A[1], int) else _num(A[1]))})'
    if a.kind == 'bits':
        return f'bits<{len(A[0])}>#{a.id}'
    if a.kind == 'app':
        return f'{A[0]}({", ".join(map(str, A[1:]))})'
    return f'{a.kind}({", ".join(NAMES.get(x, str(x)) if not isinstance(x, (Poly, Bool, tuple)) else str(x) for x in A)})'


NAMES = {}


def show_bool(b):
    k = b.k
    if k in 'TF':
        return {'T': 'true', 'F': 'false'}[k]
    if k == 'eq':
        return f'{b.a[0]} == 0'
    if k == 'le':
        return f'{b.a[0]} <= 0'
    if k == 'not':
        return f'!({b.a[0]})'
    if k in ('and', 'or'):
        return '(' + f' {k} '.join(map(str, b.a)) + ')'
    return f'{b.a[0]}({", ".join(map(str, b.a[1]))})'
