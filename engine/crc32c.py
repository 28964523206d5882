"""The specification function of CRC-32C, its defining equations, and a loop-invariant rule.

crc32c(c, w, m): the register after processing, from register c, the m bytes whose big-endian
value is w.  crc32c(c, w, 0) = c;  crc32c(c, 256 w + b, m + 1) = STEP(crc32c(c, w, m), b)."""
from terms import *
import terms as T
import loops
import prover as PR
from prover import simp_poly, decide

POLY = 0x82F63B78           # Castagnoli, reflected


def step_int(c, b):
    c ^= b
    for _ in range(8):
        c = c >> 1 ^ (POLY if c & 1 else 0)
    return c


def crc_int(c, bs):
    for b in bs:
        c = step_int(c, b)
    return c


def _eval(c, w, m):
    if m < 0 or m > 4096:
        return 0
    return crc_int(c & 0xffffffff, (w % 256 ** m).to_bytes(m, 'big'))


T.FUN['crc32c'] = _eval
T.SIMPL['crc32c'] = lambda c, w, m: c if m.const() == 0 else None


def step(c, b):
    """one byte, on terms: exact by linearity over GF(2)"""
    cf = list(T.bits_of(P(c), 32))
    bf = list(T.bits_of(P(b), 8))
    x = [T.form_xor(cf[i], bf[i]) for i in range(8)]
    out = [cf[i + 8] if i + 8 < 32 else (frozenset(), 0) for i in range(32)]
    for k in range(8):
        d = step_int(1 << k, 0)
        for i in range(32):
            if d >> i & 1:
                out[i] = T.form_xor(out[i], x[k])
    return T.bits_make(out)


def crc(c, v, n, m, ctx=None):
    """after the first m of the n bytes of v"""
    m, n = P(m), P(n)
    if m.const() == 0:
        return P(c)
    w = P(v) if m == n else Div(v, 256 ** (n - m).const() if (n - m).is_const() else T.Pow(256, n - m))
    return App('crc32c', P(c), w, m, lo=0, hi=(1 << 32) - 1)


def _vals(x2):
    """the integers whose bits occur in a word"""
    out = {}
    for i, f in enumerate(T.bits_of(x2, 32)):
        for a in f[0]:
            if a.kind == 'bit':
                out[a.args[0]] = 1
            else:
                out[a.poly] = 1
    return list(out)


def _split(q):
    """q = v div 256^e"""
    a = q.atom()
    if a is not None and a.kind == 'mod' and isinstance(a.args[1], int) and a.args[1] % 256 == 0:
        return _split(a.args[0])
    if a is not None and a.kind == 'div':
        m = a.args[1]
        if isinstance(m, int):
            e = m.bit_length() - 1
            return (a.args[0], P(e // 8)) if m == 1 << e and e % 8 == 0 else None
        b = m.atom()
        if b is not None and b.kind == 'pow' and b.args[0] == 256:
            return a.args[0], b.args[1]
        if len(m.m) == 1:
            (mo, c), = m.m.items()
            if len(mo) == 1 and mo[0].kind == 'pow' and mo[0].args[0] == 256 and c & (c - 1) == 0 and (c.bit_length() - 1) % 8 == 0:
                return a.args[0], mo[0].args[1] + (c.bit_length() - 1) // 8
    return q, ZERO


def rule(e, st0, ref, back, key, h, x2, entry, k, kat, sol):
    import os
    dbg = print if os.environ.get('CRCDBG') else lambda *a: None
    """one iteration processes the next j bytes of a buffer"""
    if key[3] != 'i' or any(a.kind == 'sym' and str(a.args[0])[:2] in ('h:', 'w:') for a in fvp(x2) if a is not h):
        return None
    hp = h.poly
    qs = [q for q in _vals(x2) if q != hp]
    dbg('rule', T.show(hp), [T.show(q) for q in qs], [_split(q) for q in qs])
    if not qs or any(_split(q) is None for q in qs):
        return None
    parts = [_split(q) for q in qs]
    vs = {v for v, _ in parts}
    if len(vs) != 1:
        return None
    v, = vs
    if h in fvp(v) or kat in fvp(v):
        return None
    # bytes in the order of the string: exponents must be consecutive
    es = sorted((x for _, x in parts), key=lambda x: -(x - parts[0][1]).const() if (x - parts[0][1]).is_const() else 0)
    if any((es[i] - es[i + 1]).const() != 1 for i in range(len(es) - 1)):
        return None
    t = hp
    for x in es:
        t = step(t, Mod(Div(v, T.Pow(256, x)), 256))
    if t != x2:
        dbg('differs', T.show(t)[:300], T.show(x2)[:300])
        return None
    n = None
    for o in st0.mem.values():
        if o.kind == 'bytes':
            for g in o.segs:
                if g.v is not None and g.v == v:
                    n = g.n
    if n is None:
        return None
    pos = simp_poly(n - 1 - es[0], st0.ctx)
    p0 = subst(pos, {kat: ZERO})
    base = _base(entry, v, n, p0)
    if base is None:
        return None
    return crc(base, v, n, pos)


def _base(entry, v, n, p0):
    a = entry.atom()
    if p0.const() == 0:
        return entry
    if a is not None and a.kind == 'app' and a.args[0] == 'crc32c':
        return a.args[1]
    j = p0.const()
    if j is not None and 0 < j <= 16:
        cand = [ZERO, P(0xffffffff)] + [q for q in _vals(entry) if q.atom() is not None and q.atom().kind not in ('div', 'mod')]
        for c in cand:
            t = c
            for i in range(j):
                t = step(t, Mod(Div(v, T.Pow(256, n - 1 - i)), 256))
            if t == entry:
                return c
    return None


def lemma(g, ctx):
    """the defining equations, for the applications that occur in the goal"""
    import points
    r = []
    aps = [a for a in points._apps(g) if a.kind == 'app' and a.args[0] == 'crc32c']
    for a in aps:
        _, c, w, m = a.args
        j = m.const()
        lower = None
        if j is not None and 0 < j <= 16:
            lower = c
        else:
            best = None
            for b in aps:
                if b is not a and b.args[1] == c:
                    d = (m - b.args[3]).const()
                    if d is not None and 0 < d <= 16 and (best is None or d < best) and Div(w, 256 ** d) == b.args[2]:
                        best, lower = d, b.poly
            j = best
        if lower is None:
            continue
        t = lower
        for i in range(j):
            t = step(t, Mod(Div(w, 256 ** (j - 1 - i)), 256))
        r.append(eq(a.poly, t))
    return r


loops.PLUGINS.append(rule)
PR.LEMMA_HOOKS.append(lemma)
