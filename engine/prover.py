"""Discharging obligations.  `Ctx` is an immutable path condition; `prove(goal, ctx)`
returns True only if goal follows.  Back ends:
  norm   canonical forms (terms.py) make the goal literally true
  ring   polynomial identity modulo a prime after clearing inverses / rewriting with
         equalities from the path condition
  range  interval arithmetic + one-step linear (Farkas) combination with a fact
  z3     linear integer arithmetic + uninterpreted functions, everything else opaque
"""
import itertools
import os
import random
import time

import z3

from terms import *
from terms import _mkb
import terms as T

STATS = {'norm': 0, 'ring': 0, 'range': 0, 'z3': 0, 'split': 0, 'fail': 0, 'z3_time': 0.0, 'time': 0.0, 'z3_calls': 0}
Z3LOG = os.environ.get('VERIF_Z3LOG')
Z3_TIMEOUT = int(os.environ.get('VERIF_Z3_MS', '8000'))


class Ctx:
    __slots__ = ('facts', 'ids', 'bounds', 'subs', '_memo', 'falsy', 'parent', 'bf')

    def __init__(s):
        s.facts, s.ids, s.bounds, s.subs, s._memo, s.falsy = (), frozenset(), {}, {}, {}, False
        s.bf = {}               # (atom, side) -> the single-atom inequality fact in `facts`

    def _subsume(n, a, side, b, stronger):
        """keep only the strongest single-atom bound on each side"""
        o = n.bf.get((a, side))
        if o is not None:
            if stronger:
                n.facts = tuple(f for f in n.facts if f is not o)
            else:
                n.facts = n.facts[:-1]
                return
        n.bf = dict(n.bf)
        n.bf[(a, side)] = b

    def add(s, *bs):
        n = s
        for b in bs:
            n = n._add1(b)
        return n

    def _add1(s, b):
        if b is TRUE or b.id in s.ids:
            return s
        if b.k == 'and':
            return s.add(*b.a)
        n = Ctx()
        n.facts = s.facts + (b,)
        n.ids = s.ids | {b.id}
        n.bounds, n.subs, n.falsy, n.bf = s.bounds, s.subs, s.falsy, s.bf
        if b is FALSE or not_(b).id in s.ids:
            n.falsy = True
        if b.k == 'le' or b.k == 'eq':
            p = b.a[0]
            nz = [(mo, c) for mo, c in p.m.items() if mo]
            if len(nz) == 1 and len(nz[0][0]) == 1:
                a, c = nz[0][0][0], nz[0][1]
                k = p.m.get((), 0)
                lo, hi = n.bounds.get(a, (a.lo, a.hi))
                if b.k == 'eq' and k % c == 0:
                    lo = max(lo, -k // c)
                    hi = min(hi, -k // c)
                elif c > 0:
                    n._subsume(a, 1, b, (-k) // c < hi)
                    hi = min(hi, (-k) // c)
                else:
                    n._subsume(a, 0, b, _ceildiv(k, -c) > lo)
                    lo = max(lo, _ceildiv(k, -c))
                n.bounds = dict(n.bounds)
                n.bounds[a] = (lo, hi)
                if lo > hi:
                    n.falsy = True
                elif b.k == 'eq' and a.kind in ('ndig', 'nbytes'):
                    n = n.add(le(lo, a.poly), le(a.poly, hi) if hi != INF else TRUE)
        z = mod_zero(b)
        if z is not None:
            q, m = z
            for f in s.facts:
                w = mod_zero(f)
                if w is not None and w[1] == m:
                    d = mod_coef(q - w[0], m)
                    if len(d.m) <= 3 and len(d.m) < min(len(q.m), len(w[0].m)):
                        d = Poly({mo: c if 2 * c < m else c - m for mo, c in d.m.items()})
                        lo, hi = n.rgp(d)
                        n = n.add(eq0(d) if -m < lo and hi < m else eq0(Mod(d, m)))
        if b.k == 'not' and b.a[0].k == 'eq':
            z = zero_of(b.a[0])
            if z is not None:
                n = n.add(*[not_(eq0(Mod(a.poly, z[2]))) for a in set(z[0])], not_(eq0(Mod(z[1], z[2]))))
            p = b.a[0].a[0]
            nz = [(mo, c) for mo, c in p.m.items() if mo]
            if len(nz) == 1 and len(nz[0][0]) == 1 and abs(nz[0][1]) == 1:
                a, c = nz[0][0][0], nz[0][1]
                v = -p.m.get((), 0) * c
                lo, hi = n.rg(a)
                if v == lo or v == hi:
                    # becomes a tighter bound
                    n.facts = n.facts[:-1]
                    return n.add(*(le(P(lo + 1), a.poly) if v == lo else TRUE,
                                   le(a.poly, P(hi - 1)) if v == hi else TRUE,
                                   _mkb('le', P(lo + 1) - a.poly) if v == lo else TRUE,
                                   _mkb('le', a.poly - (hi - 1)) if v == hi else TRUE))
                n.bounds = dict(n.bounds)
                n.bounds[a] = (lo, hi)
                if lo > hi:
                    n.falsy = True
                elif a.kind in ('ndig', 'nbytes'):
                    n = n.add(le(lo, a.poly), le(a.poly, hi) if hi != INF else TRUE)
        return n

    def rg(s, a):
        r = s.bounds.get(a)
        if r is None:
            r = a.lo, a.hi
        if a.kind in ('ndig', 'nbytes'):
            lo, hi = s.rgp(a.args[0])
            f = _nd if a.kind == 'ndig' else _nb
            b = a.args[1] if a.kind == 'ndig' else 256
            if lo > 0 and isinstance(b, int):
                r = max(r[0], f(lo, b)), r[1]
            if lo >= 0 and hi != INF and isinstance(b, int):
                r = r[0], min(r[1], f(hi, b))
        return r

    def rgp(s, p):
        return rng(p, s.rg)


def _nd(v, b):
    if b == 2:
        return max(1, int(v).bit_length())
    n = 1
    while v >= b:
        v //= b
        n += 1
    return n


def _nb(v, b):
    return (int(v).bit_length() + 7) // 8


def _ceildiv(a, b):
    return -((-a) // b)


def nonneg(p, ctx, depth=1):
    """sound quick test p >= 0 under ctx"""
    if rng(p, ctx.rg)[0] >= 0:
        return True
    if depth == 0:
        return False
    ats = p.atoms()
    for f in reversed(ctx.facts):
        if f.k in ('le', 'eq'):
            q = f.a[0]
            if len(q.m) <= 2 and q.single():
                continue            # already in ctx.bounds
            if ats & q.atoms():
                if nonneg(p + q, ctx, depth - 1):
                    return True
                if f.k == 'eq' and nonneg(p - q, ctx, depth - 1):
                    return True
    return False


def undigit(p):
    """the constant value of p after x mod 2^k -> x - 2^k div(x, 2^k), when it has one"""
    ms = {a for mo in p.m if len(mo) == 1 for a in mo if a.kind == 'mod' and isinstance(a.args[1], int) and a.args[1] & (a.args[1] - 1) == 0 and a.args[1] < 1 << 65}
    if not ms:
        return None
    q = Poly({mo: c for mo, c in p.m.items() if not (len(mo) == 1 and mo[0] in ms)})
    for a in ms:
        q = q + (a.args[0] - T.Div(a.args[0], a.args[1]).scale(a.args[1])).scale(p.m[(a,)])
    return q.const()


def decide(b, ctx, depth=1):
    """quick decision of b under ctx: True/False/None"""
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    if b.id in ctx.ids:
        return True
    nb = not_(b)
    if nb.id in ctx.ids:
        return False
    if b.k == 'le':
        if nonneg(-b.a[0], ctx, depth):
            return True
        if nonneg(b.a[0] - 1, ctx, depth):
            return False
        return None
    if b.k == 'eq':
        lo, hi = rng(b.a[0], ctx.rg)
        if lo > 0 or hi < 0:
            return False
        if lo == 0 and hi == 0:
            return True
        c = undigit(b.a[0])
        if c is not None:
            return c == 0
        if nonneg(b.a[0] - 1, ctx, depth) or nonneg(-b.a[0] - 1, ctx, depth):
            return False
        return None
    if b.k == 'not':
        r = decide(b.a[0], ctx, depth)
        return None if r is None else not r
    if b.k == 'and':
        rs = [decide(x, ctx, depth) for x in b.a]
        if any(r is False for r in rs):
            return False
        if all(rs):
            return True
        return None
    if b.k == 'or':
        rs = [decide(x, ctx, depth) for x in b.a]
        if any(rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    return None


# ---------------------------------------------------------------- substitution from equalities
def orient(f):
    """an equality fact as a rewrite atom -> Poly, or None"""
    if f.k != 'eq':
        return None
    p = f.a[0]
    a0 = p.atom()
    if a0 is not None and a0.kind == 'mod' and isinstance(a0.args[1], int):
        q, m = a0.args
        best = None
        for mo, c in q.m.items():
            if len(mo) == 1 and c in (1, m - 1) or (len(mo) == 1 and m in PRIMES):
                a = mo[0]
                if a.lo >= 0 and a.hi < m and a.kind in ('sym', 'app', 'powm') and _free_in(a, q, mo):
                    if best is None or _pref(a) > _pref(best[0]):
                        best = (a, mo, c)
        if best:
            a, mo, c = best
            rest = Poly({k: v for k, v in q.m.items() if k != mo})
            ci = 1 if c == 1 else pow(c, -1, m)
            return a, Mod((-rest).scale(ci), m)
        return None
    best = None
    for mo, c in p.m.items():
        if len(mo) == 1 and abs(c) == 1:
            a = mo[0]
            if _free_in(a, p, mo) and a.kind not in ('b', 'bits'):
                if best is None or _pref(a) > _pref(best[0]):
                    best = (a, mo, c)
    if best:
        a, mo, c = best
        rest = Poly({k: v for k, v in p.m.items() if k != mo})
        return a, (-rest if c == 1 else rest)
    if a0 is None:
        nz = [(mo, c) for mo, c in p.m.items() if mo]
        if len(nz) == 1 and len(nz[0][0]) == 1 and len(p.m) == 2:
            c = nz[0][1]
            k = p.m[()]
            if k % c == 0:
                return nz[0][0][0], P(-k // c)
    return None


def _pref(a):
    return ({'sym': 3, 'app': 2, 'div': 2}.get(a.kind, 1), a.id)


def _occ(a, x):
    """does atom a occur anywhere in x (Poly)"""
    for b in x.atoms():
        if b is a:
            return True
        for y in b.args:
            if isinstance(y, Poly) and _occ(a, y):
                return True
            if isinstance(y, Bool) and _occb(a, y):
                return True
    return False


def _occb(a, b):
    for y in b.a:
        if isinstance(y, Poly) and _occ(a, y):
            return True
        if isinstance(y, Bool) and _occb(a, y):
            return True
        if isinstance(y, tuple) and any(isinstance(z, Poly) and _occ(a, z) for z in y):
            return True
    return False


def _free_in(a, p, mo0):
    for mo in p.m:
        if mo == mo0:
            continue
        for b in mo:
            if b is a:
                return False
            for y in b.args:
                if isinstance(y, Poly) and _occ(a, y) or isinstance(y, Bool) and _occb(a, y):
                    return False
    return True


_normcache = {}


def normalise(ctx):
    """(facts', sub): equalities turned into substitutions and applied to the others"""
    key = tuple(f.id for f in ctx.facts)
    r = _normcache.get(key)
    if r is not None:
        return r
    facts = list(ctx.facts)
    sub = []
    for _ in range(60):
        done = True
        for i, f in enumerate(facts):
            o = orient(f)
            if o is None:
                continue
            a, t = o
            rest = facts[:i] + facts[i + 1:]
            s = {a: t}
            memo = {}
            facts = []
            for g in rest:
                g = substb(g, s, None, memo)
                if g is TRUE:
                    continue
                facts.extend(g.a if g.k == 'and' else (g,))
            # keep what the equality says about the range of the replaced atom
            lo, hi = ctx.rg(a)
            if lo != -INF:
                facts.append(le0(P(lo) - t))
            if hi != INF:
                facts.append(le0(t - hi))
            facts = [g for g in facts if g is not TRUE]
            sub.append((a, t))
            done = False
            break
        if done:
            break
    c = Ctx().add(*facts)
    # re-simplify the facts with the bounds known
    c2 = Ctx()
    for f in c.facts:
        g = simp_b(f, c) if f.k not in ('le', 'eq') else cancel0(f, c)
        c2 = c2.add(g)
    _normcache[key] = (c2, sub)
    return c2, sub


def apply_sub(x, sub, rg=None):
    for a, t in sub:
        x = substb(x, {a: t}, rg) if isinstance(x, Bool) else subst(x, {a: t}, rg)
    return x


def simp_b(b, ctx):
    """replace sub-formulas decided by ctx (not b itself)"""
    if b.k in ('and', 'or'):
        args = []
        for x in b.a:
            d = decide(x, ctx)
            args.append(bconst(d) if d is not None else simp_b(x, ctx))
        return and_(*args) if b.k == 'and' else or_(*args)
    return b


def simp_poly(p, ctx, memo=None):
    """rebuild with context ranges; indicators decided by ctx become constants"""
    if memo is None:
        memo = {}

    def f(q):
        r = memo.get(q)
        if r is None:
            sub = {}
            for a in q.atoms():
                n = fa(a)
                if n.atom() is not a:
                    sub[a] = n
            r = memo[q] = psub(q, sub) if sub else q
        return r

    def fb(b):
        d = decide(b, ctx)
        if d is not None:
            return bconst(d)
        b2 = unwrap_eq(mapb(b, f, fb, ctx.rg), ctx)
        d = decide(b2, ctx)
        return bconst(d) if d is not None else b2

    def fa(a):
        if a.kind in ('sym', 'bv'):
            lo, hi = ctx.rg(a)
            return P(lo) if lo == hi else a.poly
        k = ('fa', a)
        r = memo.get(k)
        if a.kind in ('sum', 'prod'):
            if r is None:
                r = memo[k] = simp_big(a, ctx, f)
            return r
        if r is None:
            r = rebuild(a, f, fb, ctx.rg)
            lo, hi = ctx.rg(a)
            if lo == hi:
                r = P(lo)
            elif a.kind == 'mod' and (a.args[1] == 1 << 64 or a.args[1] == 1 << 32):
                b = r.atom()
                if b is not None and b.kind == 'mod' and b.args[1] == a.args[1]:
                    r = unwrap(b, ctx)
            memo[k] = r
        return r
    return f(p)


def unwrap(a, ctx):
    """machine arithmetic that does not wrap"""
    m = a.args[1]
    h = m >> 1
    q = a.args[0]
    if len(q.m) <= 4 and ctx.facts:
        q = Poly({mo: (c + h) % m - h for mo, c in q.m.items()})
        if nonneg(q, ctx, 2) and nonneg(m - 1 - q, ctx, 2):
            return q
    return a.poly


def unwrap_eq(b, ctx):
    """q = 0 modulo the word size, for |q| less than that"""
    a = b.a[0].atom() if b.k == 'eq' else None
    if a is None or a.kind != 'mod' or a.args[1] not in (1 << 64, 1 << 32):
        return b
    m = a.args[1]
    h = m >> 1
    q = a.args[0]
    if len(q.m) <= 4:
        q = Poly({mo: (c + h) % m - h for mo, c in q.m.items()})
        if nonneg(m - 1 - q, ctx, 2) and nonneg(q + (m - 1), ctx, 2):
            return eq(q, ZERO)
    return b


def simp_big(a, ctx, f):
    """a sum or product whose terms contain machine arithmetic or indicators: simplified in the range of the index"""
    body, n, d = a.args
    bv = bvar(d)
    m = f(n)
    if _wraps(body):
        c2 = ctx.add(le(ZERO, bv.poly), lt(bv.poly, n))
        body = simp_poly(body, c2)
    if body is a.args[0] and m is n:
        return a.poly
    r = (Sum if a.kind == 'sum' else Prod)(body, m, bv)
    sub = {}
    for x in r.atoms():
        # what reversing and shifting the index leaves
        if x is not a and x.kind == a.kind and _wraps(x.args[0]):
            y = bvar(x.args[2])
            c2 = ctx.add(le(ZERO, y.poly), lt(y.poly, x.args[1]))
            body = simp_poly(x.args[0], c2)
            if body is not x.args[0]:
                sub[x] = (Sum if a.kind == 'sum' else Prod)(body, x.args[1], y)
    return psub(r, sub) if sub else r


_WRAPS = {}


def _wraps(p):
    r = _WRAPS.get(p)
    if r is None:
        def at(a):
            if a.kind == 'b' or a.kind == 'mod' and a.args[1] == 1 << 64:
                return True
            return any(isinstance(x, Poly) and _wraps(x) for x in a.args)
        r = _WRAPS[p] = any(at(a) for a in p.atoms() if a.kind not in ('sym', 'bv', 'sum', 'prod'))
    return r


def simp_bool(b, ctx):
    memo = {}

    def f(q):
        return simp_poly(q, ctx, memo)

    def fb(x):
        d = decide(x, ctx)
        if d is not None:
            return bconst(d)
        return cancel0(mapb(x, f, fb, ctx.rg), ctx)
    return fb(b)


# ---------------------------------------------------------------- ring identities
def invatoms(p, m):
    return [a for a in p.atoms() if a.kind == 'inv' and a.args[1] == m]


def nonzero_mod(u, m, ctx):
    z = eq0(Mod(u, m))
    if z is FALSE:
        return True
    if z is TRUE:
        return False
    if not_(z).id in ctx.ids:
        return True
    if decide(z, ctx) is False:
        return True
    um = mod_strip(u, m)
    if not um.m:
        return False
    # integer disequalities q != 0 with |q| < m
    mu = monic_mod(um, m)
    for f in ctx.facts:
        if f.k == 'not' and f.a[0].k == 'eq':
            q = f.a[0].a[0]
            a = q.atom()
            if a is not None and a.kind == 'mod':
                if a.args[1] != m:
                    continue
                q = a.args[0]
            else:
                lo, hi = rng(q, ctx.rg)
                if not (-m < lo and hi < m):
                    continue
            if monic_mod(mod_strip(q, m), m) == mu:
                return True
    # product of non-zero factors
    if m in PRIMES:
        g, r = common(um)
        if (g and r.atoms() or len(g) > 1) and all(nonzero_mod(a.poly, m, ctx) for a in set(g)) and nonzero_mod(r, m, ctx):
            return True
    if um.atom() is not None and um.atom().kind == 'inv' and um.atom().args[1] == m and m in PRIMES:
        return nonzero_mod(um.atom().args[0], m, ctx)
    if um.atom() is not None and um.atom().kind == 'gpow' and m in PRIMES and nonzero_mod(um.atom().args[0], m, ctx):
        return True
    if um.atom() is not None and um.atom().kind == 'prod' and m in PRIMES and nonzero_factors(um.atom(), m, ctx):
        return True
    if len(um.m) == 2:
        (a, ca), (b, cb) = [(mo[0] if len(mo) == 1 else None, c) for mo, c in um.m.items()]
        if a is not None and b is not None and (ca + cb) % m == 0 and a.kind == b.kind == 'app' and a.args[0] == b.args[0] \
                and (a.args[0], m) in INJECTIVE and len(a.args) == len(b.args) == 2:
            if decide(eq(a.args[1], b.args[1]), ctx) is False:
                return True
    if um.atom() is not None and um.atom().kind in ('prod', 'gpow') and m in PRIMES:
        for h in NONZERO_HOOKS:
            if h(um, m, ctx):
                return True
    for h in NONZERO_HOOKS:
        if h(um, m, ctx):
            return True
    return False


def monic_mod(p, m):
    p = mod_coef(p, m)
    if not p.m or m not in PRIMES:
        return p
    lm = max(p.m, key=lambda mo: (len(mo), [x.id for x in mo]))
    return mod_coef(p.scale(pow(p.m[lm], -1, m)), m)


NONZERO_HOOKS = []
INJECTIVE = set()       # (f, m): f(a) = f(b) (mod m) only for a = b (a hypothesis of the task)


def nonzero_factors(a, m, ctx):
    """every factor of the product is non-zero mod the prime m"""
    body, n, d = a.args
    j = S('factor#%d' % a.id, 0, INF)
    ctx = ctx.add(lt(j, n))
    return _nonzero_cases(subst(body, {T.bvar(d): j}), m, ctx, 4)


def _nonzero_cases(p, m, ctx, depth):
    if ctx.falsy or nonzero_mod(p, m, ctx):
        return True
    if not depth:
        return False
    for z in p.atoms():
        if z.kind == 'b':
            return all(_nonzero_cases(subst(p, {z: P(v)}), m, ctx.add(c), depth - 1)
                       for v, c in ((1, z.args[0]), (0, not_(z.args[0]))) if decide(c, ctx) is not False)
    return False


def common(p):
    """the greatest monomial dividing every term of p, and the quotient"""
    ms = iter(p.m)
    g = list(next(ms, ()))
    for mo in ms:
        if not g:
            return (), p
        l, h = list(mo), []
        for a in g:
            if a in l:
                l.remove(a)
                h.append(a)
        g = h
    if not g:
        return (), p
    out = {}
    for mo, c in p.m.items():
        l = list(mo)
        for a in g:
            l.remove(a)
        out[tuple(l)] = c
    return tuple(g), Poly(out)


def mod_zero(b):
    """b is q = 0 (mod m): (q, m)"""
    if b.k != 'eq':
        return None
    a = b.a[0].atom()
    if a is not None and a.kind == 'mod' and isinstance(a.args[1], int):
        return a.args
    return None


def zero_of(b):
    """b is `q = 0 (mod p)` with p prime and q with a common factor: (factors, rest, p)"""
    if b.k != 'eq':
        return None
    a = b.a[0].atom()
    if a is not None and a.kind == 'mod' and isinstance(a.args[1], int) and a.args[1] in PRIMES:
        q, m = a.args
    else:
        return None
    g, r = common(q)
    return (g, r, m) if g and r.m != {(): 1} or len(g) > 1 else None


def cancel0(b, ctx):
    """divide the factors known to be non-zero out of `q = 0 (mod p)`"""
    z = zero_of(b)
    if z is None:
        return b
    g, r, m = z
    keep = ONE
    for a in set(g):
        if not nonzero_mod(a.poly, m, ctx):
            keep = keep * a.poly
    if len(keep.m) == 1 and len(next(iter(keep.m))) == len(g):
        return b
    return eq0(Mod(keep * r, m))


def ring_zero(p, m, ctx, rel):
    """p = 0 (mod m)?  True / False(not shown)"""
    p = mod_strip(p, m)
    for _ in range(40):
        if not p.m:
            return True
        inv = invatoms(p, m)
        if not inv:
            break
        a = max(inv, key=lambda x: x.id)
        u = a.args[0]
        if not nonzero_mod(u, m, ctx):
            return False
        k = max(mo.count(a) for mo in p.m)
        out = ZERO
        pw = [ONE]
        for _ in range(k):
            pw.append(mod_coef(pw[-1] * mod_strip(u, m), m))
        for mo, c in p.m.items():
            j = mo.count(a)
            out = out + Poly({tuple(x for x in mo if x is not a): c}) * pw[k - j]
        p = mod_strip(out, m)
    p = reduce_rel(p, m, rel)
    return not p.m


def reduce_rel(p, m, rel):
    """rewrite with relations  lead + rest = 0 (mod m)"""
    for _ in range(200):
        hit = None
        for lm, rest in rel:
            for mo in p.m:
                q = mono_div(mo, lm)
                if q is not None:
                    hit = (mo, q, rest)
                    break
            if hit:
                break
        if not hit:
            return p
        mo, q, rest = hit
        c = p.m[mo]
        p = Poly({k: v for k, v in p.m.items() if k != mo}) + Poly({q: c}) * rest
        p = mod_coef(p, m)
    return p


def relations(ctx, m):
    rel = []
    for f in ctx.facts:
        if f.k == 'eq':
            a = f.a[0].atom()
            if a is not None and a.kind == 'mod' and a.args[1] == m:
                q = a.args[0]
                # leading monomial: a pure square if there is one, else the longest
                cand = [mo for mo in q.m if len(mo) == 2 and mo[0] is mo[1] and mo[0].kind != 'b'] or [mo for mo in q.m if mo]
                lm = max(cand, key=lambda mo: (len(mo), [x.id for x in mo]))
                c = pow(q.m[lm], -1, m) if m in PRIMES else (1 if q.m[lm] == 1 else None)
                if c is None:
                    continue
                rest = mod_coef(Poly({k: v for k, v in q.m.items() if k != lm}).scale(-c), m)
                rel.append((lm, rest))
    return rel


def expand_bits(p):
    """bit(v,k) -> v div 2^k - 2 (v div 2^(k+1))  (exact for any integer v)"""
    sub = {}
    for a in p.atoms():
        if a.kind == 'bit':
            v, k = a.args
            sub[a] = Div(v, 1 << k) - Div(v, 1 << (k + 1)).scale(2)
    return psub(p, sub) if sub else p


def _mods_in(p):
    r = {}
    for a in p.atoms():
        if a.kind == 'mod' and isinstance(a.args[1], int):
            r[a.args[1]] = r.get(a.args[1], 0) + 1
    return r


# ---------------------------------------------------------------- z3
class Z:
    def __init__(s, nonlin=False):
        s.vars, s.side, s.done = {}, [], {}
        s.funs = {}
        s.nonlin = nonlin

    def poly(s, p):
        r = []
        for mo, c in p.m.items():
            if not mo:
                r.append(z3.IntVal(c))
            elif len(mo) == 1:
                r.append(c * s.atom(mo[0]) if c != 1 else s.atom(mo[0]))
            else:
                # products of indicators with one other factor stay linear
                ind = [a for a in mo if a.kind == 'b']
                oth = [a for a in mo if a.kind != 'b']
                if len(oth) <= 1:
                    t = s.atom(oth[0]) if oth else z3.IntVal(1)
                    t = z3.If(z3.And(*[s.boolean(a.args[0]) for a in ind]), c * t, z3.IntVal(0))
                    r.append(t)
                elif s.nonlin:
                    t = z3.IntVal(c)
                    for a in mo:
                        t = t * s.atom(a)
                    r.append(t)
                else:
                    r.append(c * s.opaque(mo))
        if not r:
            return z3.IntVal(0)
        return z3.Sum(r) if len(r) > 1 else r[0]

    def opaque(s, mo):
        v = s.vars.get(mo)
        if v is None:
            v = s.vars[mo] = z3.Int('m%d' % len(s.vars))
            lo, hi = rng(Poly({mo: 1}))
            s._range(v, lo, hi)
        return v

    def _range(s, v, lo, hi):
        if lo != -INF:
            s.side.append(v >= int(lo))
        if hi != INF:
            s.side.append(v <= int(hi))

    def atom(s, a):
        v = s.vars.get(a)
        if v is not None:
            return v
        if a.kind == 'b':
            v = s.vars[a] = z3.If(s.boolean(a.args[0]), z3.IntVal(1), z3.IntVal(0))
            return v
        if a.kind == 'app' and all(isinstance(x, Poly) for x in a.args[1:]) and len(a.args) > 1:
            f = s.funs.get((a.args[0], len(a.args)))
            if f is None:
                f = s.funs[(a.args[0], len(a.args))] = z3.Function('f_' + str(a.args[0]), *([z3.IntSort()] * len(a.args)))
            v = s.vars[a] = f(*[s.poly(x) for x in a.args[1:]])
            s._range(v, a.lo, a.hi)
            return v
        v = s.vars[a] = z3.Int('a%d' % a.id)
        if a.kind in ('mod', 'div') and isinstance(a.args[1], int):
            p, m = a.args
            key = ('qr', p, m)
            qr = s.done.get(key)
            if qr is None:
                q, r = z3.Int('q%d_%d' % (a.id, len(s.done))), z3.Int('r%d_%d' % (a.id, len(s.done)))
                s.done[key] = qr = (q, r)
                s.side += [r >= 0, r < m, s.poly(p) == m * q + r]
            s.side.append(v == (qr[0] if a.kind == 'div' else qr[1]))
            s._range(v, a.lo, a.hi)
            return v
        if a.kind == 'bit':
            p, k = a.args
            m = 1 << (k + 1)
            q, h, l = z3.Ints('bq%d bh%d bl%d' % (a.id, a.id, a.id))
            s.side += [s.poly(p) == m * q + (1 << k) * v + l, l >= 0, l < (1 << k), v >= 0, v <= 1]
            return v
        if a.kind == 'max0':
            t = s.poly(a.args[0])
            s.side.append(v == z3.If(t > 0, t, z3.IntVal(0)))
            return v
        s._range(v, a.lo, a.hi)
        return v

    def boolean(s, b):
        k = b.k
        if k == 'T':
            return z3.BoolVal(True)
        if k == 'F':
            return z3.BoolVal(False)
        if k == 'eq':
            return s.poly(b.a[0]) == 0
        if k == 'le':
            return s.poly(b.a[0]) <= 0
        if k == 'not':
            return z3.Not(s.boolean(b.a[0]))
        if k == 'and':
            return z3.And(*[s.boolean(x) for x in b.a])
        if k == 'or':
            return z3.Or(*[s.boolean(x) for x in b.a])
        if k == 'app':
            name = 'p_' + b.a[0]
            if not b.a[1]:
                return z3.Bool(name)
            f = s.funs.get((name, len(b.a[1])))
            if f is None:
                f = s.funs[(name, len(b.a[1]))] = z3.Function(name, *([z3.IntSort()] * len(b.a[1]) + [z3.BoolSort()]))
            return f(*[s.poly(x) for x in b.a[1]])
        raise NotImplementedError(k)


def relevant(facts, goal):
    """facts connected to the goal through shared leaves (transitively)"""
    vs = set(fvb(goal))
    left = list(facts)
    out = []
    ch = True
    while ch:
        ch = False
        rest = []
        for f in left:
            v = fvb(f)
            if not v or v & vs:
                out.append(f)
                vs |= v
                ch = True
            else:
                rest.append(f)
        left = rest
    return out


def z3_check(facts, goal, nonlin=False, timeout=None):
    """unsat of facts & !goal -> True; sat -> False; else None"""
    t0 = time.time()
    STATS['z3_calls'] += 1
    z = Z(nonlin)
    sol = z3.Solver()
    sol.set('timeout', timeout or Z3_TIMEOUT)
    try:
        g = z.boolean(not_(goal))
        fs = [z.boolean(f) for f in facts]
    except NotImplementedError:
        return None
    for f in fs:
        sol.add(f)
    for c in z.side:
        sol.add(c)
    sol.add(g)
    r = sol.check()
    STATS['z3_time'] += time.time() - t0
    if Z3LOG:
        st = sol.statistics()
        rl = [st[i][1] for i in range(len(st)) if st[i][0] == 'rlimit count']
        with open(Z3LOG, 'a') as f:
            f.write('%.3f %s %s %s %s %s\n' % (time.time() - t0, rl and rl[0], r, nonlin, timeout, str(goal)[:150].replace('\n', ' ')))
    return True if r == z3.unsat else False if r == z3.sat else None


def feasible(ctx, cond):
    """may ctx & cond hold?  (over-approximate: True when unsure)"""
    if ctx.falsy:
        return False
    d = decide(cond, ctx)
    if d is False:
        return False
    if d is True:
        return True
    c2 = ctx.add(cond)
    if c2.falsy:
        return False
    if _free(ctx.facts, cond):
        return True
    facts = relevant(ctx.facts, cond)
    r = z3_check(facts, not_(cond), timeout=3000)
    return r is not True


_deep = {}


def deep_apps(b):
    """applications of uninterpreted functions anywhere inside"""
    r = _deep.get(b.id)
    if r is None:
        from points import _apps
        r = _deep[b.id] = frozenset(a for a in _apps(b) if a.kind == 'app')
    return r


def _free(facts, cond):
    """the condition compares a value of an uninterpreted function about which nothing is known"""
    b = cond.a[0] if cond.k == 'not' else cond
    if b.k not in ('eq', 'le') or not isinstance(b.a[0], Poly):
        return False
    top = [mo[0] for mo in b.a[0].m if len(mo) == 1 and mo[0].kind == 'app']
    return any(all(a not in deep_apps(f) for f in facts) for a in top)


# ---------------------------------------------------------------- main entry
class Proof:
    def __init__(s, ok, how, goal=None):
        s.ok, s.how, s.goal = ok, how, goal

    def __bool__(s):
        return s.ok


def prove(goal, ctx, depth=0, use_z3=True):
    t0 = time.time()
    r = _prove(goal, ctx, depth, use_z3)
    if depth == 0:
        STATS['time'] += time.time() - t0
        STATS[r.how if r.ok else 'fail'] = STATS.get(r.how if r.ok else 'fail', 0) + 1
    return r


def _prove(goal, ctx, depth, use_z3):
    if goal is TRUE or ctx.falsy:
        return Proof(True, 'norm')
    d = decide(goal, ctx)
    if d:
        return Proof(True, 'range')
    if goal.k == 'and':
        how = 'norm'
        for g in goal.a:
            r = _prove(g, ctx, depth, use_z3)
            if not r:
                return r
            how = max(how, r.how, key=['norm', 'range', 'ring', 'split', 'z3'].index)
        return Proof(True, how)
    c2, sub = normalise(ctx)
    if c2.falsy:
        return Proof(True, 'norm')
    g = apply_sub(goal, sub, c2.rg)
    g = simp_bool(g, c2)
    if g is TRUE:
        return Proof(True, 'norm')
    if decide(g, c2, 2):
        return Proof(True, 'range')
    if g.k == 'and':
        return _prove(g, c2, depth, use_z3)
    if g.k == 'or' and depth < 6:
        # prove one disjunct under the negation of the others
        for i, x in enumerate(g.a):
            rest = [not_(y) for j, y in enumerate(g.a) if j != i]
            if x.k in ('eq', 'le') or i == len(g.a) - 1:
                r = _prove(x, c2.add(*rest), depth + 1, False)
                if r:
                    return r
    if g.k == 'not' and g.a[0].k == 'eq':
        a = g.a[0].a[0].atom()
        if a is not None and a.kind == 'mod' and isinstance(a.args[1], int) and nonzero_mod(a.args[0], a.args[1], c2):
            return Proof(True, 'ring')
    if g.k == 'eq' and _prove_eq(g, c2):
        return Proof(True, 'ring')
    for h in LEMMA_HOOKS:
        fs = h(g, c2)
        if fs:
            new = [f for f in fs if f.id not in c2.ids and f is not TRUE]
            if new and depth < 4:
                return _prove(g, c2.add(*new), depth + 1, use_z3)
    # case split on indicators
    if depth < 5:
        ind = _indicators(g)
        if 0 < len(ind) <= 6:
            b = ind[0]
            STATS['split'] += 1
            r1 = _prove(g, c2.add(b), depth + 1, use_z3)
            if r1:
                r2 = _prove(g, c2.add(not_(b)), depth + 1, use_z3)
                if r2:
                    return Proof(True, 'split')
                if r2.goal is not None:
                    return r2
            else:
                return r1
        # split on a disjunction in the context
        tried = 0
        for f in c2.facts:
            if f.k == 'or' and len(f.a) <= 3 and (fvb(f) & fvb(g)):
                ok = True
                for x in f.a:
                    r = _prove(g, Ctx().add(*[y for y in c2.facts if y is not f]).add(x, *[eq(a.poly, t) for a, t in sub if a.kind == 'app']), depth + 1, use_z3)
                    if not r:
                        ok = False
                        break
                if ok:
                    return Proof(True, 'split')
                tried += 1
                if tried >= 4:
                    break
    if use_z3:
        facts = relevant(c2.facts, g)
        r = z3_check(facts, g)
        if r is True:
            return Proof(True, 'z3')
        if r is None or has_nonlin(g):
            if z3_check(facts, g, nonlin=True, timeout=min(Z3_TIMEOUT, 4000)) is True:
                return Proof(True, 'z3')
    return Proof(False, 'fail', g)


LEMMA_HOOKS = []


def pow_lemma(g, ctx):
    """powers of one base whose exponents differ by a constant"""
    if g.k not in ('le', 'eq'):
        return ()
    ps = {a for x in g.a if isinstance(x, Poly) for mo in x.m for a in mo if a.kind == 'pow'}
    if not ps:
        return ()
    qs = {a for f in ctx.facts if f.k in ('le', 'eq') for x in f.a if isinstance(x, Poly) for mo in x.m for a in mo if a.kind == 'pow'}
    r = []
    for a in ps:
        for b in qs - ps:
            if a.args[0] == b.args[0] and isinstance(a.args[0], int):
                d = (a.args[1] - b.args[1]).const()
                if d is not None and 0 < abs(d) <= 64:
                    r.append(eq(a.poly, b.poly.scale(a.args[0] ** d)) if d > 0 else eq(b.poly, a.poly.scale(a.args[0] ** -d)))
    return r


LEMMA_HOOKS.append(pow_lemma)


def has_nonlin(g):
    return any(isinstance(x, Poly) and any(len(mo) > 1 for mo in x.m) for x in g.a) if g.k in ('eq', 'le') else False


def _indicators(g):
    seen, out = set(), []

    def walk(x):
        if isinstance(x, Bool):
            for y in x.a:
                if isinstance(y, (Poly, Bool)):
                    walk(y)
                elif isinstance(y, tuple):
                    for w in y:
                        if isinstance(w, Poly):
                            walk(w)
        else:
            for a in x.atoms():
                if a in seen:
                    continue
                seen.add(a)
                if a.kind == 'b':
                    if not any(v.kind == 'bv' for v in fv(a)):
                        out.append(a.args[0])
                elif a.kind in ('sum', 'prod'):
                    continue
                elif a.lo == 0 and a.hi == 1 and a.kind in ('sym', 'bit', 'app'):
                    out.append(eq0(a.poly - 1))
                for y in a.args:
                    if isinstance(y, (Poly, Bool)):
                        walk(y)
    walk(g)
    return out


def _prove_eq(g, ctx):
    p = g.a[0]
    p2 = simp_poly(expand_bits(p), ctx)
    if not p2.m:
        return True
    if rng(p2, ctx.rg) == (0, 0):
        return True
    a = p2.atom()
    cands = []
    if a is not None and a.kind == 'mod' and isinstance(a.args[1], int):
        cands.append((a.args[0], a.args[1]))
    else:
        e = eq0(p2)
        if e is TRUE:
            return True
        if e.k == 'eq':
            a = e.a[0].atom()
            if a is not None and a.kind == 'mod' and isinstance(a.args[1], int):
                cands.append((a.args[0], a.args[1]))
            for m in sorted(_mods_in(e.a[0]), reverse=True):
                lo, hi = rng(e.a[0], ctx.rg)
                if -m < lo and hi < m:
                    cands.append((e.a[0], m))
    for q, m in cands:
        q = T.mod_coef(expand_bits(mod_strip(q, m)), m)
        if not q.m:
            return True
        q = T.mod_coef(simp_poly(q, ctx), m)
        if not q.m:
            return True
        if ring_zero(q, m, ctx, relations(ctx, m)):
            return True
    # equality of equal function applications
    return False


# ---------------------------------------------------------------- refutation by evaluation
class Env(dict):
    """values for symbols; uninterpreted functions are memoised pseudo-random functions"""

    def __init__(s, rnd):
        super().__init__()
        s.rnd = rnd
        s.apps = {}
        s.pool = []

    def __missing__(s, a):
        v = s.pick(a.lo, a.hi)
        s[a] = v
        return v

    def pick(s, lo, hi):
        r = s.rnd
        if lo == -INF and hi == INF:
            lo, hi = -(1 << 80), 1 << 80
        elif lo == -INF:
            lo = hi - (1 << 80)
        elif hi == INF:
            hi = lo + r.choice([3, 10, 300, 1 << 20, 1 << 70])
        lo, hi = int(lo), int(hi)
        t = r.random()
        if t < 0.25:
            return r.choice([lo, hi, min(hi, lo + 1), min(hi, lo + 2), max(lo, hi - 1)])
        if t < 0.45 and s.pool:
            v = r.choice(s.pool) + r.choice([0, 0, 0, 1, -1])
            if lo <= v <= hi:
                return v
        if t < 0.7:
            n = max(1, int(hi - lo).bit_length())
            return min(hi, lo + r.getrandbits(r.randint(1, n)))
        return r.randint(lo, hi)

    def app(s, name, args, atom):
        k = (name, args)
        if k not in s.apps:
            lo, hi = (atom.lo, atom.hi) if atom is not None else (0, 1)
            s.apps[k] = s.pick(lo, hi)
        return s.apps[k]


def find_model(goal, ctx, tries=400, seed=1, pool=()):
    """an Env where ctx holds and goal fails, or None (evaluation search, not complete)"""
    rnd = random.Random(seed)
    try:
        c2, sub = normalise(ctx)
    except RecursionError:
        return None
    t0 = time.time()
    for i in range(tries):
        if time.time() - t0 > 20:
            break
        e = Env(rnd)
        e.pool = list(pool)
        try:
            for a, t in reversed(sub):
                v = ev(t, e)
                if a.kind in ('sym',):
                    if not (a.lo <= v <= a.hi):
                        raise EvalError('range')
                    e[a] = v
            # simple repair: satisfy bounds
            for a, (lo, hi) in c2.bounds.items():
                if a.kind == 'sym' and a not in e:
                    e[a] = e.pick(lo, hi)
            if not all(evb(f, e) for f in c2.facts):
                continue
            if not all(evb(f, e) for f in ctx.facts):
                continue
            if not evb(goal, e):
                return e
        except (EvalError, KeyError, ZeroDivisionError, RecursionError, ValueError):
            continue
    return None
