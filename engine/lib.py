"""Trusted contracts of library functions the repository calls: GMP (C API), libstdc++
containers / strings, OpenSSL EVP AES-128-CTR, libc.  Each states what the documented
function returns; nothing of these libraries is verified here."""
import re

from terms import *
import terms as T
from symex import *
from prover import simp_poly, decide
import prover as PR

LIB = {}


def lib(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


PATS = []


def pat(rx):
    def d(f):
        PATS.append((re.compile(rx, re.S), f))
        return f
    return d


def s64(e, st, v):
    return SG(v, 64, st.ctx.rg)


def u64(e, st, v):
    return U(v, 64, st.ctx.rg)


# ------------------------------------------------------------------ GMP
def g(n):
    return '__gmpz_' + n


@lib(g('init'), g('init2'))
def _(e, st, a, i):
    e.zset(st, a[0], ZERO)


@lib(g('clear'))
def _(e, st, a, i):
    cells, c = e.cells_of(st, a[0], 16, True, 'mpz_clear')
    v = cells.get(c)
    if v is None or not isinstance(v[1], Z):
        e.fail(st, 'mpz_clear of an uninitialised mpz')
    del cells[c]


@lib(g('init_set'), g('set'))
def _(e, st, a, i):
    e.zset(st, a[0], e.zget(st, a[1]))


@lib(g('init_set_si'), g('set_si'))
def _(e, st, a, i):
    e.zset(st, a[0], s64(e, st, a[1]))


@lib(g('init_set_ui'), g('set_ui'))
def _(e, st, a, i):
    e.zset(st, a[0], u64(e, st, a[1]))


@lib(g('swap'))
def _(e, st, a, i):
    x, y = e.zget(st, a[0]), e.zget(st, a[1])
    e.zset(st, a[0], y)
    e.zset(st, a[1], x)


def cstring(e, st, p):
    """concrete C string at p -> bytes"""
    o = e.deref(st, p, 1, 'string')
    if o.kind != 'bytes':
        raise Unsupported('C string')
    if o.table and o.table[0] == 1:
        b = bytes(o.table[1])[p.off.const():]
        return b[:b.index(0)]
    out = bytearray()
    k = 0
    while True:
        c = e.byte_at(st, o, p.off + k).const()
        if c is None:
            raise Unsupported('symbolic C string')
        if c == 0:
            return bytes(out)
        out.append(c)
        k += 1


def parse_int(b, base):
    t = b.decode('latin1').replace(' ', '').replace('\n', '').replace('\t', '')
    try:
        if base == 0:
            return int(t, 0)
        if t.startswith('+'):
            return None
        return int(t, base)
    except ValueError:
        return None


@lib(g('set_str'), g('init_set_str'))
def _(e, st, a, i):
    base = SG(a[2], 32)
    o = e.deref(st, a[1], 1, 'string')
    if o.kind == 'bytes' and a[1].off.const() == 0 and o.segs and o.segs[0].kind == 'txt' and o.segs[0].v is not None:
        # a text without NUL: by assumption a numeral of that base (reading it is a trusted function of GMP)
        e.bounds(st, o, o.segs[0].n, ONE, 'string')
        e.zset(st, a[0], App('numeral', o.segs[0].v, o.segs[0].n, base))
        return ZERO
    v = parse_int(cstring(e, st, a[1]), base.const())
    if v is None:
        if e.resolve:
            e.zset(st, a[0], ZERO)
        return P(-1)
    e.zset(st, a[0], P(v))
    return ZERO


@lib(g('neg'))
def _(e, st, a, i):
    e.zset(st, a[0], -e.zget(st, a[1]))


@lib(g('abs'))
def _(e, st, a, i):
    v = e.zget(st, a[1])
    e.zset(st, a[0], zabs(e, st, v))


def zabs(e, st, v):
    if decide(le(ZERO, v), st.ctx):
        return v
    return v if e.need(st, le(ZERO, v)) else -v


def bin_(name, f):
    LIB[g(name)] = lambda e, st, a, i: e.zset(st, a[0], f(e, st, e.zget(st, a[1]), e.zget(st, a[2])))


def binu(name, f, conv=u64):
    LIB[g(name)] = lambda e, st, a, i: e.zset(st, a[0], f(e, st, e.zget(st, a[1]), conv(e, st, a[2])))


bin_('add', lambda e, st, x, y: x + y)
bin_('sub', lambda e, st, x, y: x - y)
bin_('mul', lambda e, st, x, y: x * y)
binu('add_ui', lambda e, st, x, y: x + y)
binu('sub_ui', lambda e, st, x, y: x - y)
binu('mul_ui', lambda e, st, x, y: x * y)
binu('mul_si', lambda e, st, x, y: x * y, s64)


@lib(g('ui_sub'))
def _(e, st, a, i):
    e.zset(st, a[0], u64(e, st, a[1]) - e.zget(st, a[2]))


@lib(g('addmul'), g('submul'))
def _(e, st, a, i):
    t = e.zget(st, a[1]) * e.zget(st, a[2])
    e.zset(st, a[0], e.zget(st, a[0]) + (t if 'addmul' in i.x[0][1] else -t))


@lib(g('addmul_ui'), g('submul_ui'))
def _(e, st, a, i):
    t = e.zget(st, a[1]) * u64(e, st, a[2])
    e.zset(st, a[0], e.zget(st, a[0]) + (t if 'addmul' in i.x[0][1] else -t))


def cmpres(x, y):
    return B(lt(y, x)) - B(lt(x, y))


@lib(g('cmp'))
def _(e, st, a, i):
    return cmpres(e.zget(st, a[0]), e.zget(st, a[1]))


@lib(g('cmp_ui'), '_g' + 'mpz_cmp_ui')
def _(e, st, a, i):
    return cmpres(e.zget(st, a[0]), u64(e, st, a[1]))


@lib(g('cmp_si'))
def _(e, st, a, i):
    return cmpres(e.zget(st, a[0]), s64(e, st, a[1]))


@lib(g('cmpabs'))
def _(e, st, a, i):
    return cmpres(zabs(e, st, e.zget(st, a[0])), zabs(e, st, e.zget(st, a[1])))


def divisor(e, st, d, what='division by zero'):
    if d.const() == 0:
        e.fail(st, what)
    if d.const() is None:
        e.oblige(st, not_(eq(d, ZERO)), what)


def fmod(e, st, x, d):
    c = d.const()
    if c is not None:
        return Mod(x, abs(c), st.ctx.rg)
    return Mod(x, zabs(e, st, d))


@lib(g('mod'))
def _(e, st, a, i):
    x, d = e.zget(st, a[1]), e.zget(st, a[2])
    divisor(e, st, d)
    e.zset(st, a[0], fmod(e, st, x, d))


def posdiv(e, st, d):
    c = d.const()
    if c is not None:
        return c if c > 0 else None
    return d if e.need(st, lt(ZERO, d)) else None


def divs(name, kind, part):
    def h(e, st, a, i):
        ui = name.endswith('_ui')
        outs = 2 if part == 'qr' else 1
        x = e.zget(st, a[outs])
        d = u64(e, st, a[outs + 1]) if ui else e.zget(st, a[outs + 1])
        divisor(e, st, d)
        dd = posdiv(e, st, d)
        if dd is None:
            raise Unsupported('negative divisor')
        if kind == 'f' or e.need(st, le(ZERO, x)):
            q, r = Div(x, dd), Mod(x, dd)
        else:
            q = -Div(-x, dd)
            r = x - q * dd
        if part == 'q':
            e.zset(st, a[0], q)
        elif part == 'r':
            e.zset(st, a[0], r)
        else:
            e.zset(st, a[0], q)
            e.zset(st, a[1], r)
        if ui:
            return r
    LIB[g(name)] = h


for k in ('f', 't'):
    for p_ in ('q', 'r', 'qr'):
        divs('%sdiv_%s' % (k, p_), k, p_)
        divs('%sdiv_%s_ui' % (k, p_), k, p_)


@lib(g('fdiv_ui'))
def _(e, st, a, i):
    d = u64(e, st, a[1])
    divisor(e, st, d)
    c = d.const()
    return Mod(e.zget(st, a[0]), c if c is not None else d)


def shifts(name, kind, part):
    def h(e, st, a, i):
        x = e.zget(st, a[1])
        k = u64(e, st, a[2])
        c = k.const()
        d = 1 << c if c is not None else Pow(2, k)
        if kind == 'f' or e.need(st, le(ZERO, x)):
            q, r = Div(x, d), Mod(x, d)
        else:
            q = -Div(-x, d)
            r = x - q * d
        e.zset(st, a[0], q if part == 'q' else r)
    LIB[g(name)] = h


for k in 'ft':
    for p_ in 'qr':
        shifts('%sdiv_%s_2exp' % (k, p_), k, p_)


@lib(g('mul_2exp'))
def _(e, st, a, i):
    k = u64(e, st, a[2])
    c = k.const()
    e.zset(st, a[0], e.zget(st, a[1]).scale(1 << c) if c is not None else e.zget(st, a[1]) * Pow(2, k))


@lib(g('divexact_ui'))
def _(e, st, a, i):
    x, d = e.zget(st, a[1]), u64(e, st, a[2]).const()
    if d is None:
        raise Unsupported('divexact')
    e.oblige(st, eq0(Mod(x, d)), 'mpz_divexact_ui: exact')
    e.zset(st, a[0], Div(x, d))


@lib(g('divexact'))
def _(e, st, a, i):
    x, d = e.zget(st, a[1]), e.zget(st, a[2])
    c = d.const()
    if not c or c < 0:
        raise Unsupported('divexact')
    e.oblige(st, eq0(Mod(x, c)), 'mpz_divexact: exact')
    e.zset(st, a[0], Div(x, c))


@lib(g('invert'))
def _(e, st, a, i):
    x, m = e.zget(st, a[1]), e.zget(st, a[2]).const()
    if m is None or m not in T.PRIMES:
        raise Unsupported('mpz_invert modulo a non-constant or unregistered modulus')
    if e.need(st, eq0(Mod(x, m))):
        # no inverse: the result variable is undefined (documented)
        e.zset(st, a[0], e.fresh(st, 'undefined_inverse', 0, INF))
        return ZERO
    e.zset(st, a[0], Inv(x, m))
    return ONE


@lib(g('powm'))
def _(e, st, a, i):
    b, x, m = e.zget(st, a[1]), e.zget(st, a[2]), e.zget(st, a[3]).const()
    if m is None:
        raise Unsupported('powm modulus')
    if not e.need(st, le(ZERO, x)):
        raise Unsupported('powm with a negative exponent')
    e.zset(st, a[0], PowM(b, x, m))


@lib(g('powm_ui'))
def _(e, st, a, i):
    b, x, m = e.zget(st, a[1]), u64(e, st, a[2]), e.zget(st, a[3]).const()
    if m is None:
        raise Unsupported('powm modulus')
    e.zset(st, a[0], PowM(b, x, m))


@lib(g('pow_ui'))
def _(e, st, a, i):
    b, x = e.zget(st, a[1]), u64(e, st, a[2])
    if x.const() is not None and x.const() < 64:
        e.zset(st, a[0], b ** x.const())
    elif b.const() is not None and b.const() > 1:
        e.zset(st, a[0], Pow(b.const(), x))
    else:
        raise Unsupported('pow_ui')


@lib(g('ui_pow_ui'))
def _(e, st, a, i):
    b, x = u64(e, st, a[1]), u64(e, st, a[2])
    if b.const() is None:
        raise Unsupported('ui_pow_ui')
    e.zset(st, a[0], P(b.const() ** x.const()) if x.const() is not None else Pow(b.const(), x))


@lib(g('tstbit'))
def _(e, st, a, i):
    k = u64(e, st, a[1])
    return Bit(e.zget(st, a[0]), k.const() if k.const() is not None else k)


@lib(g('setbit'))
def _(e, st, a, i):
    v, k = e.zget(st, a[0]), u64(e, st, a[1])
    w = k.const()
    d = P(1 << w) if w is not None else Pow(2, k)
    e.zset(st, a[0], v + (ONE - Bit(v, w if w is not None else k)) * d)


@lib(g('clrbit'))
def _(e, st, a, i):
    v, k = e.zget(st, a[0]), u64(e, st, a[1])
    w = k.const()
    d = P(1 << w) if w is not None else Pow(2, k)
    e.zset(st, a[0], v - Bit(v, w if w is not None else k) * d)


@lib(g('sizeinbase'))
def _(e, st, a, i):
    b = a[1].const()
    v = zabs(e, st, e.zget(st, a[0]))
    if b not in (2, 4, 8, 16, 32, 64):
        raise Unsupported('sizeinbase')
    return NDigits(v, b)


@lib(g('size'))
def _(e, st, a, i):
    v = zabs(e, st, e.zget(st, a[0]))
    if e.need(st, eq(v, ZERO)):
        return ZERO
    n = NDigits(v, 2)
    return Div(n + 63, 64)


@lib(g('get_ui'))
def _(e, st, a, i):
    return Mod(zabs(e, st, e.zget(st, a[0])), 1 << 64, st.ctx.rg)


@lib(g('get_si'))
def _(e, st, a, i):
    v = e.zget(st, a[0])
    if e.need(st, and_(le(P(-(1 << 63)), v), lt(v, P(1 << 63)))):
        return v
    raise Unsupported('mpz_get_si out of range')


@lib(g('fits_ulong_p'))
def _(e, st, a, i):
    v = e.zget(st, a[0])
    return B(and_(le(ZERO, v), lt(v, P(1 << 64))))


@lib(g('fits_slong_p'))
def _(e, st, a, i):
    v = e.zget(st, a[0])
    return B(and_(le(P(-(1 << 63)), v), lt(v, P(1 << 63))))


@lib(g('get_str'))
def _(e, st, a, i):
    base = SG(a[1], 32).const()
    v = e.zget(st, a[2])
    if not (isinstance(a[0], Ptr) and a[0].obj is None):
        raise Unsupported('mpz_get_str into a buffer')
    c = v.const()
    if c is not None:
        t = to_base(c, base).encode() + b'\0'
        o = new_obj(st, 'bytes', len(t), 'mpz_get_str')
        o.heap = True
        o.segs = [BSeg(ZERO, len(t), P(int.from_bytes(t, 'big')))]
        return Ptr(o.id)
    if base != 2:
        raise Unsupported('mpz_get_str base %s' % base)
    if not e.need(st, le(ZERO, v)):
        raise Unsupported('mpz_get_str of a negative number')
    n = NDigits(v, 2)
    o = new_obj(st, 'bytes', n + 1, 'mpz_get_str')
    o.heap = True
    o.segs = [BSeg(ZERO, n, v, 'bin'), BSeg(n, ONE, ZERO)]
    return Ptr(o.id)


def to_base(c, b):
    if c == 0:
        return '0'
    sgn, c = ('-', -c) if c < 0 else ('', c)
    d = ''
    while c:
        d = '0123456789abcdefghijklmnopqrstuvwxyz'[c % b] + d
        c //= b
    return sgn + d


@lib('__gmp_get_memory_functions')
def _(e, st, a, i):
    for k, n in enumerate(('gmp_alloc', 'gmp_realloc', 'gmp_free')):
        if a[k].obj is not None:
            e.store(st, a[k], FPtr(n), 'p')


@lib('gmp_free')
def _(e, st, a, i):
    free(e, st, a[0])


@lib('__gmp_randinit_default', '__gmp_randclear', '__gmp_randinit_mt', '__gmp_randseed', '__gmp_randseed_ui', '__gmp_randinit_set',
     '__gmp_randinit_lc_2exp_size')
def _(e, st, a, i):
    return ONE


def draw(e, st, lo, hi, kind):
    r = e.fresh(st, 'rand', lo, hi)
    st.log = st.log + ((kind, r, lo, hi),)
    return r


@lib(g('urandomm'))
def _(e, st, a, i):
    n = e.zget(st, a[2])
    c = n.const()
    if c is not None:
        if c <= 0:
            e.fail(st, 'mpz_urandomm with range 0')
        e.zset(st, a[0], draw(e, st, 0, c - 1, 'urandomm'))
    else:
        e.oblige(st, lt(ZERO, n), 'mpz_urandomm: positive range')
        r = draw(e, st, 0, INF, 'urandomm')
        st.assume(lt(r, n))
        e.zset(st, a[0], r)


@lib(g('urandomb'), g('rrandomb'))
def _(e, st, a, i):
    n = u64(e, st, a[2])
    c = n.const()
    if c is not None:
        e.zset(st, a[0], draw(e, st, 0, (1 << c) - 1, 'urandomb'))
    else:
        r = draw(e, st, 0, INF, 'urandomb')
        T.BELOW.add((r.atom(), Pow(2, n)))
        st.assume(lt(r, Pow(2, n)))
        e.zset(st, a[0], r)


@lib('__gmp_urandomm_ui')
def _(e, st, a, i):
    n = u64(e, st, a[1])
    e.oblige(st, lt(ZERO, n), 'gmp_urandomm_ui: positive range')
    c = n.const()
    r = draw(e, st, 0, c - 1 if c else INF, 'urandomm')
    if not c:
        st.assume(lt(r, n))
    return r


@lib('__gmp_urandomb_ui')
def _(e, st, a, i):
    c = u64(e, st, a[1]).const()
    if c is None:
        raise Unsupported('urandomb_ui')
    return draw(e, st, 0, (1 << c) - 1, 'urandomb')


@lib('rand', 'random')
def _(e, st, a, i):
    return draw(e, st, 0, (1 << 31) - 1, 'rand')


@lib('srand', 'srandom')
def _(e, st, a, i):
    return None


@lib(g('export'))
def _(e, st, a, i):
    rop, cp, order, size, endian, nails, op = a
    size, nails = u64(e, st, size).const(), u64(e, st, nails).const()
    order = SG(order, 32).const()
    if size != 1 or nails != 0 or order not in (1, -1):
        raise Unsupported('mpz_export parameters')
    v = zabs(e, st, e.zget(st, op))
    if e.need(st, eq(v, ZERO)):
        if cp.obj is not None:
            e.store(st, cp, ZERO, 64)
        return rop if rop.obj is not None else NULL
    n = NBytes(v)
    if order == -1:
        c = n.const()
        raise Unsupported('little-endian export')
    if cp.obj is not None:
        e.store(st, cp, n, 64)
    if rop.obj is None:
        o = new_obj(st, 'bytes', n, 'mpz_export buffer')
        o.heap = True
        o.segs = [BSeg(ZERO, n, v)]
        return Ptr(o.id)
    o = e.deref(st, rop, 1, 'mpz_export')
    if o.kind != 'bytes':
        raise Unsupported('mpz_export target')
    e.bounds(st, o, rop.off, n, 'mpz_export')
    e.bytes_write(st, st.w(o.id), rop.off, n, v)
    return rop


@lib(g('import'))
def _(e, st, a, i):
    rop, cnt, order, size, endian, nails, src = a
    cnt, size, nails = u64(e, st, cnt), u64(e, st, size).const(), u64(e, st, nails).const()
    order = SG(order, 32).const()
    if size != 1 or nails != 0 or order != 1:
        if not (size == 1 and nails == 0 and cnt.const() is not None and order == -1):
            raise Unsupported('mpz_import parameters')
    if e.need(st, eq(cnt, ZERO)):
        e.zset(st, rop, ZERO)
        return
    o = e.deref(st, src, 1, 'mpz_import')
    if o.kind != 'bytes':
        # bytes of an integer object
        n = cnt.const()
        if n is None:
            raise Unsupported('mpz_import source')
        v = e.cells_as_bytes(st, o, src, n)
    else:
        e.bounds(st, o, src.off, cnt, 'mpz_import')
        v = e.bytes_value(st, o, src.off, cnt)
    if order == -1:
        n = cnt.const()
        w = ZERO
        for k in range(n):
            w = w + Mod(Div(v, 256 ** (n - 1 - k)), 256).scale(256 ** k)
        v = w
    e.zset(st, rop, simp_poly(v, st.ctx))


@lib(g('probab_prime_p'))
def _(e, st, a, i):
    raise Unsupported('probab_prime_p')


@lib(g('and'))
def _(e, st, a, i):
    x, y = e.zget(st, a[1]), e.zget(st, a[2])
    if y.const() is None:
        x, y = y, x
    c = y.const()
    if c is None or c < 0 or (c & (c + 1)) != 0:
        raise Unsupported('mpz_and')
    e.zset(st, a[0], Mod(x, c + 1))


@lib(g('jacobi'), g('legendre'))
def _(e, st, a, i):
    x, m = e.zget(st, a[0]), e.zget(st, a[1]).const()
    if m not in T.PRIMES:
        raise Unsupported('jacobi')
    z = eq0(Mod(x, m))
    if e.need(st, z):
        return ZERO
    sq = eq(PowM(x, P((m - 1) // 2), m), ONE)
    return ONE if e.need(st, sq) else P(-1)


# ------------------------------------------------------------------ memory
def free(e, st, p):
    if isinstance(p, Poly) and p.const() == 0:
        return
    if p.obj is None:
        return
    if p.null is not FALSE:
        if e.need(st, p.null):
            return
    o = st.mem.get(p.obj)
    if o is None:
        e.fail(st, 'double free or free of a dead object')
    if not o.heap or p.off.const() != 0:
        e.fail(st, 'free of a pointer that was not allocated')
    del st.mem[p.obj]


@lib('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm')
def _(e, st, a, i):
    free(e, st, a[0])


@lib('_Znwm')
def _(e, st, a, i):
    n = a[0].const()
    if n is None:
        raise Unsupported('operator new of symbolic size')
    o = new_obj(st, 'cells', n, 'new')
    o.heap = True
    return Ptr(o.id)


@lib('_Znam', 'malloc')
def _(e, st, a, i):
    n = u64(e, st, a[0])
    o = new_obj(st, 'bytes', n.const() if n.is_const() else n, 'malloc')
    o.heap = True
    return Ptr(o.id)


@lib('calloc')
def _(e, st, a, i):
    n = u64(e, st, a[0]) * u64(e, st, a[1])
    o = new_obj(st, 'bytes', n.const() if n.is_const() else n, 'calloc')
    o.heap = True
    o.segs = [BSeg(ZERO, n, ZERO)]
    return Ptr(o.id)


@lib('realloc')
def _(e, st, a, i):
    p, n = a[0], u64(e, st, a[1])
    o = new_obj(st, 'bytes', n.const() if n.is_const() else n, 'realloc')
    o.heap = True
    if p.obj is not None and not (p.null is not FALSE and e.need(st, p.null)):
        old = e.deref(st, p, 1, 'realloc')
        if not old.heap or p.off.const() != 0:
            e.fail(st, 'realloc of a pointer that was not allocated')
        osz = P(old.size)
        if e.need(st, le(osz, n)):
            o.segs = list(old.segs)
        else:
            v = e.bytes_value(st, old, ZERO, n)
            o.segs = [BSeg(ZERO, n, v)]
        del st.mem[old.id]
    return Ptr(o.id)


@lib('memcpy', 'memmove')
def _(e, st, a, i):
    d, s, n = a[0], a[1], u64(e, st, a[2])
    c = n.const()
    if c is not None:
        if c:
            e.copy_range(st, d, s, c)
        return d
    if e.need(st, eq(n, ZERO)):
        return d
    so = e.deref(st, s, 1, 'memcpy source')
    do = e.deref(st, d, 1, 'memcpy destination')
    if so.kind != 'bytes' or do.kind != 'bytes':
        raise Unsupported('memcpy')
    e.bounds(st, so, s.off, n, 'memcpy source')
    e.bounds(st, do, d.off, n, 'memcpy destination')
    v = e.bytes_value(st, so, s.off, n)
    e.bytes_write(st, st.w(do.id), d.off, n, v)
    return d


@lib('memset')
def _(e, st, a, i):
    d, c, n = a[0], Mod(a[1], 256), u64(e, st, a[2])
    if n.const() == 0:
        return d
    if n.const() is None and e.need(st, eq(n, ZERO)):
        return d
    o = e.deref(st, d, 1, 'memset')
    if o.kind == 'bytes':
        e.bounds(st, o, d.off, n, 'memset')
        k = n.const()
        v = ZERO if c.const() == 0 else c.scale((256 ** k - 1) // 255) if k is not None else None
        if v is None:
            raise Unsupported('memset of symbolic length')
        e.bytes_write(st, st.w(o.id), d.off, n, v)
        return d
    k = n.const()
    if k is None or c.const() is None:
        raise Unsupported('memset')
    cells, off = e.cells_of(st, d, k, True, 'memset')
    j = 0
    while j < k:
        w = 8 if (k - j) >= 8 else 4 if k - j >= 4 else 1
        e.cell_write(cells, off + j, w, P(int.from_bytes(bytes([c.const()]) * w, 'big')))
        j += w
    return d


@lib('strlen')
def _(e, st, a, i):
    return strlen(e, st, a[0])


def strlen(e, st, p):
    o = e.deref(st, p, 1, 'string')
    c = p.off.const()
    if o.kind != 'bytes':
        raise Unsupported('strlen')
    if o.table and o.table[0] == 1 and c is not None:
        b = bytes(o.table[1])[c:]
        if 0 not in b:
            e.fail(st, 'unterminated string')
        return P(b.index(0))
    if c == 0 and len(o.segs) == 2 and o.segs[0].kind in ('bin', 'txt') and o.segs[1].v is not None and o.segs[1].v.const() == 0:
        return o.segs[0].n
    return P(len(cstring(e, st, p)))


@lib('abort', 'exit', '_Exit', '__assert_fail', '_ZSt9terminatev', '__cxa_pure_virtual', 'quick_exit')
def _(e, st, a, i):
    return [(st, 'abort', None)]


@lib('__cxa_allocate_exception')
def _(e, st, a, i):
    o = new_obj(st, 'cells', a[0].const(), 'exception')
    o.heap = True
    return Ptr(o.id)


@lib('__cxa_free_exception', '__cxa_atexit', 'printf', 'puts', 'putchar', 'fprintf', 'ERR_print_errors_fp', 'ERR_get_error', 'fflush')
def _(e, st, a, i):
    return ZERO


@lib('__cxa_throw')
def _(e, st, a, i):
    ti = a[1]
    return [(st, 'throw', str(getattr(ti, 'obj', '?')))]


@pat(r'^std::__throw_')
def _(e, st, a, i, m):
    return [(st, 'throw', m.string)]


@pat(r'^std::(invalid_argument|runtime_error|logic_error|out_of_range|domain_error|length_error)::(~)?\1\(')
def _(e, st, a, i, m):
    return None


@pat(r'^std::(__cxx11::)?(basic_)?(allocator|new_allocator|__new_allocator)<.*>::~?(allocator|new_allocator|__new_allocator)\(')
def _(e, st, a, i, m):
    return None


@lib('__cxa_guard_acquire')
def _(e, st, a, i):
    o = st.mem[a[0].obj]
    v = o.cells.get(0)
    if v is not None and v[1].const() == 1:
        return ZERO
    return ONE


@lib('__cxa_guard_release', '__cxa_guard_abort')
def _(e, st, a, i):
    st.w(a[0].obj).cells[0] = (8, ONE)
    g = a[0].obj[2:]
    if g.startswith('_ZGV'):
        n = '_Z' + g[4:]
        if 'g:' + n in st.mem:
            st.globs = dict(st.globs)
            st.globs[n] = st.mem['g:' + n].copy()


# ------------------------------------------------------------------ std::string
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::'


def str_new(e, st, p, n, v, kind='be'):
    o = new_obj(st, 'bytes', None, 'string data')
    o.n = P(n)
    o.size = o.n + 1 if not P(n).is_const() else P(n).const() + 1
    o.segs = ([BSeg(ZERO, n, v, kind)] if P(n).const() != 0 else []) + [BSeg(P(n), ONE, ZERO)]
    cells, c = e.cells_of(st, p, 32, True, 'string')
    e.cell_write(cells, c, 32, Ref(o.id, 'str'))
    return o


def str_obj(e, st, p):
    cells, c = e.cells_of(st, p, 32, what='string')
    v = cells.get(c)
    if v is None or not isinstance(v[1], Ref):
        o = st.mem.get(p.obj)
        if o is not None and o.ty in ('zero', 'extern') and isinstance(p.obj, str):
            # a global string whose dynamic initialiser has not been run: constructed empty
            raise Unsupported('global string before its initialiser')
        e.fail(st, 'use of an uninitialised string')
    return st.mem[v[1].id]


def str_copy(e, st, dst, o):
    n = new_obj(st, 'bytes', o.size, o.name)
    n.n, n.segs, n.table = o.n, list(o.segs), o.table
    cells, c = e.cells_of(st, dst, 32, True, 'string')
    e.cell_write(cells, c, 32, Ref(n.id, 'str'))


@pat('^' + re.escape(STR) + r'(basic_string|~basic_string|operator=|assign|length|size|operator\[\]|at|c_str|data|empty|clear|resize|push_back|append|operator\+=|back|front|_Alloc_hider::.*|begin|end|cbegin|cend|rbegin|rend|crbegin|crend|reserve)(?:<.*?>)?\((.*)\)')
def _(e, st, a, i, m):
    meth, ps = m.group(1), m.group(2)
    if meth.startswith('_Alloc_hider'):
        return None
    if meth == 'basic_string':
        if ps == '' or ps.startswith('std::allocator'):
            str_new(e, st, a[0], ZERO, None)
        elif ps.startswith('char const*, unsigned long'):
            n = u64(e, st, a[2])
            if n.const() == 0:
                str_new(e, st, a[0], ZERO, None)
            else:
                o = e.deref(st, a[1], 1, 'string')
                e.bounds(st, o, a[1].off, n, 'string')
                str_new(e, st, a[0], n, e.bytes_value(st, o, a[1].off, n))
        elif ps.startswith('char const*'):
            o = e.deref(st, a[1], 1, 'string')
            n = strlen(e, st, a[1])
            if o.segs and o.segs[0].kind in ('bin', 'txt'):
                str_new(e, st, a[0], n, o.segs[0].v, o.segs[0].kind)
            else:
                str_new(e, st, a[0], n, e.bytes_value(st, o, a[1].off, n) if n.const() != 0 else None)
        elif ps.startswith('unsigned long, char'):
            n = u64(e, st, a[1]).const()
            c = Mod(a[2], 256)
            if n is None:
                raise Unsupported('string fill')
            str_new(e, st, a[0], n, c.scale((256 ** n - 1) // 255) if n else None)
        elif '&&' in ps:
            o = str_obj(e, st, a[1])
            str_copy(e, st, a[0], o)
            str_new(e, st, a[1], ZERO, None)
        elif ps.startswith('std::__cxx11::basic_string') and 'const&' in ps and 'unsigned long' not in ps:
            str_copy(e, st, a[0], str_obj(e, st, a[1]))
        else:
            raise Unsupported('string constructor (%s)' % ps)
        return None
    if meth == '~basic_string':
        return None
    if meth in ('operator=', 'assign'):
        if ps.startswith('char const*') and 'unsigned' not in ps:
            n = strlen(e, st, a[1])
            o = e.deref(st, a[1], 1, 'string')
            str_new(e, st, a[0], n, e.bytes_value(st, o, a[1].off, n) if n.const() != 0 else None)
        elif ps.startswith('unsigned long, char'):
            n = u64(e, st, a[1]).const()
            str_new(e, st, a[0], n, Mod(a[2], 256).scale((256 ** n - 1) // 255) if n else None)
        elif ps.startswith('std::__cxx11::basic_string'):
            o = str_obj(e, st, a[1])
            str_copy(e, st, a[0], o)
            if '&&' in ps and a[0].obj != a[1].obj:
                str_new(e, st, a[1], ZERO, None)
        else:
            raise Unsupported('string assignment')
        return a[0]
    if meth in ('rbegin', 'rend', 'crbegin', 'crend'):
        # std::reverse_iterator: the pointer one past the element
        o = str_obj(e, st, a[1])
        e.store(st, a[0], Ptr(o.id, o.n if 'begin' in meth else ZERO), 'p')
        return None
    o = str_obj(e, st, a[0])
    if meth in ('length', 'size'):
        return o.n
    if meth == 'empty':
        return eq(o.n, ZERO)
    if meth in ('operator[]', 'at'):
        return Ptr(o.id, u64(e, st, a[1]))
    if meth in ('c_str', 'data', 'begin', 'cbegin'):
        return Ptr(o.id, ZERO)
    if meth in ('end', 'cend'):
        return Ptr(o.id, o.n)
    if meth == 'front':
        return Ptr(o.id, ZERO)
    if meth == 'back':
        return Ptr(o.id, o.n - 1)
    if meth == 'reserve':
        return None
    n0 = o.n
    if meth == 'clear':
        str_new(e, st, a[0], ZERO, None)
        return None
    if meth == 'resize':
        n = u64(e, st, a[1])
        c = Mod(a[2], 256) if len(a) > 2 else ZERO
        if n.const() is None or n0.const() is None:
            raise Unsupported('string resize')
        n, k = n.const(), n0.const()
        v = e.bytes_value(st, o, ZERO, P(min(n, k))) if min(n, k) else ZERO
        if n > k:
            v = v.scale(256 ** (n - k)) + c.scale((256 ** (n - k) - 1) // 255)
        str_new(e, st, a[0], n, v)
        return None
    if meth in ('push_back', 'append', 'operator+='):
        if n0.const() is None:
            raise Unsupported('string append')
        v = e.bytes_value(st, o, ZERO, n0) if n0.const() else ZERO
        if ps == 'char':
            k, w = 1, Mod(a[1], 256)
        elif ps.startswith('unsigned long, char'):
            k = u64(e, st, a[1]).const()
            w = Mod(a[2], 256).scale((256 ** k - 1) // 255)
        elif ps.startswith('std::__cxx11::basic_string') and 'unsigned' not in ps:
            o2 = str_obj(e, st, a[1])
            k = o2.n.const()
            if k is None:
                raise Unsupported('string append')
            w = e.bytes_value(st, o2, ZERO, o2.n) if k else ZERO
        elif ps.startswith('char const*') and 'unsigned' not in ps:
            k = strlen(e, st, a[1]).const()
            w = e.bytes_value(st, e.deref(st, a[1], 1, 'string'), a[1].off, P(k)) if k else ZERO
        else:
            raise Unsupported('string append')
        str_new(e, st, a[0], n0.const() + k, v.scale(256 ** k) + w)
        return a[0]
    raise Unsupported('string method ' + meth)


# ------------------------------------------------------------------ std::vector
def vtype(d):
    """'... std::vector<T, std::allocator<T> >::meth...' -> (T, rest after '::')"""
    k = d.find('std::vector<')
    if k < 0:
        return None
    i = k + len('std::vector<')
    depth, j, comma = 1, i, None
    while j < len(d):
        c = d[j]
        if c in '<([':
            depth += 1
        elif c in '>)]':
            depth -= 1
            if depth == 0:
                break
        elif c == ',' and depth == 1 and comma is None:
            comma = j
        j += 1
    t = d[i:comma if comma else j].strip()
    return t, d[j + 1:], k


_es = {}


def elem_size(e, t):
    r = _es.get(t)
    if r:
        return r
    if t.startswith('std::vector<'):
        r = 24
    elif t.startswith('__gmp_expr<'):
        r = 16
    else:
        pre = 'std::vector<%s, std::allocator<%s%s> >::' % (t, t, ' ' if t.endswith('>') else '')
        for n, d in e.dem.items():
            if e.mod.is_decl(n):
                continue
            if d.startswith(pre + 'operator[]('):
                for b in e.mod.func(n).blocks:
                    for i in b:
                        if i.op == 'gep' and i.x[1]:
                            r = i.x[1][0][2]
            elif re.match(r'^std::__new_allocator<%s ?>::allocate\(' % re.escape(t), d):
                for b in e.mod.func(n).blocks:
                    for i in b:
                        if i.op == 'mul':
                            for x in i.a:
                                if x[0] == 'c':
                                    r = x[1]
            elif d.startswith(pre + 'size() const'):
                for b in e.mod.func(n).blocks:
                    for i in b:
                        if i.op == 'sdiv' and i.a[1][0] == 'c':
                            r = i.a[1][1]
            if r:
                break
    if not r:
        raise Unsupported('size of vector element ' + t)
    _es[t] = r
    return r


def vec_new(e, st, p, es, ty, n=ZERO, segs=()):
    o = new_obj(st, 'vec', None, 'vector<%s>' % ty)
    o.es, o.n, o.segs, o.ty = es, P(n), list(segs), ty
    cells, c = e.cells_of(st, p, 24, True, 'vector')
    e.cell_write(cells, c, 24, Ref(o.id, 'vec'))
    return o


def vec_store(e, st, p, write=False):
    cells, c = e.cells_of(st, p, 24, what='vector')
    v = cells.get(c)
    if v is not None and isinstance(v[1], Ref):
        return st.w(v[1].id) if write else st.mem[v[1].id]
    if v is not None and isinstance(v[1], GenVec):
        gv = v[1]
        o = new_obj(st, 'vec', None, 'generic vector')
        o.es, o.n, o.ty = gv.es, gv.n, gv.ty
        o.segs = list(gv.elems)
        if write:
            raise Unsupported('modification of a vector inside a generic element')
        return o
    e.fail(st, 'use of an uninitialised vector')


def clone_val(e, st, v):
    if isinstance(v, Ref):
        o = st.mem[v.id]
        n = o.copy()
        from symex import _objid
        _objid[0] += 1
        n.id = _objid[0]
        n.tok = st.tok
        n.segs = [clone_seg(e, st, s) for s in o.segs] if o.kind == 'vec' else list(o.segs)
        st.mem[n.id] = n
        return Ref(n.id, v.kind)
    return v


def clone_seg(e, st, s):
    if any(isinstance(v, Ref) for sz, v in s.cells.values()):
        return Seg(s.start, s.n, {k: (sz, clone_val(e, st, v)) for k, (sz, v) in s.cells.items()}, s.bv)
    return s


def read_elem(e, st, p, es):
    """copy of the element at p, as cells relative to 0.  The element's copy constructor is
    required to be field-wise (obligation copyctor:<T>, see contracts)"""
    cells, c = e.cells_of(st, p, es, what='vector element')
    return {k - c: (sz, clone_val(e, st, v)) for k, (sz, v) in cells.items() if c <= k and k + sz <= c + es}


def made_elem(e, st, t, es, args, ps):
    """an element constructed in place from the arguments (allocator_traits::construct)"""
    if ps == '()' and not args:
        return default_elem(e, st, t, es)
    pre = 'void std::allocator_traits<std::allocator<%s> >::construct<%s' % (t, t)
    suf = '%s*, %s' % (t, ps[1:])
    c = [n for n, d in e.dem.items() if d.startswith(pre) and d.endswith(suf)]
    if len(c) != 1:
        raise Unsupported('emplace_back with constructor arguments')
    al, o = new_obj(st, 'cells', 8, 'allocator'), new_obj(st, 'cells', es, 'new element')
    outs = e.call(st, c[0], [Ptr(al.id), Ptr(o.id)] + list(args))
    if len(outs) != 1 or outs[0][1] != 'ret':
        raise Unsupported('branching constructor')
    o2 = outs[0][0]
    if o2 is not st:
        st.ctx, st.mem, st.iters, st.foralls, st.cnt, st.log, st.globs = o2.ctx, o2.mem, o2.iters, o2.foralls, o2.cnt, o2.log, o2.globs
        st.tok = object()
    st.mem.pop(al.id, None)
    return dict(st.mem.pop(o.id).cells)


def default_elem(e, st, t, es):
    if t.startswith('__gmp_expr<'):
        return {0: (16, Z(ZERO))}
    o = new_obj(st, 'cells', es, 'new element')
    if t.startswith('std::vector<'):
        it = vtype(t)[0]
        vec_new(e, st, Ptr(o.id), elem_size(e, it), it)
    else:
        last = t.split('::')[-1]
        name = None
        for cand in ('%s::%s()' % (t, last),):
            name = e.bydem.get(cand)
        if name is None:
            # clients name a function that builds an instance
            name = e.bydem.get('mk__' + t.replace('::', '__'))
        if name is None:
            raise Unsupported('default constructor of ' + t)
        outs = e.call(st, name, [Ptr(o.id)])
        if len(outs) != 1 or outs[0][1] != 'ret':
            raise Unsupported('branching default constructor')
        o2 = outs[0][0]
        if o2 is not st:
            st.ctx, st.mem, st.iters, st.foralls, st.cnt, st.log, st.globs = o2.ctx, o2.mem, o2.iters, o2.foralls, o2.cnt, o2.log, o2.globs
            st.tok = object()
    cells = dict(st.mem[o.id].cells)
    del st.mem[o.id]
    return cells


def append(e, st, o, cells):
    o.segs.append(Seg(o.n, ONE, cells))
    o.n = o.n + 1


def note_copy(e, t):
    while t.startswith('std::vector<'):
        t = vtype(t)[0]
    if t.endswith('*') or t.replace('unsigned ', '').replace('signed ', '') in ('char', 'short', 'int', 'long', 'long long', 'bool', 'float', 'double'):
        return
    if not e.quiet:
        e.used['copyctor:' + t] = e.used.get('copyctor:' + t, 0) + 1


def h_vector(e, st, a, i, m):
    d = m.string
    t, rest, k = vtype(d)
    mm = re.match(r'^::(~?\w+|operator=|operator\[\])(<.*?>)?\((.*)\)( const)?$', rest, re.S)
    meth = re.match(r'^::(operator=|operator\[\]|~?\w+)', rest).group(1)
    ps = rest[rest.index('('):] if '(' in rest else ''
    es = elem_size(e, t)
    self = a[0]
    if meth == 'vector':
        if ps in ('()',) or ps.startswith('(std::allocator'):
            vec_new(e, st, self, es, t)
        elif ps.startswith('(std::initializer_list'):
            n = a[2].const()
            o = vec_new(e, st, self, es, t)
            note_copy(e, t)
            for j in range(n):
                append(e, st, o, read_elem(e, st, Ptr(a[1].obj, a[1].off + j * es), es))
        elif ps.startswith('(std::vector<') and '&&' in ps:
            o = vec_store(e, st, a[1])
            cells, c = e.cells_of(st, self, 24, True)
            e.cell_write(cells, c, 24, Ref(o.id, 'vec'))
            vec_new(e, st, a[1], es, t)
        elif ps.startswith('(std::vector<'):
            note_copy(e, t)
            o = vec_store(e, st, a[1])
            vec_new(e, st, self, es, t, o.n, [clone_seg(e, st, s) for s in o.segs])
        elif ps.startswith('(unsigned long, std::allocator') or ps == '(unsigned long)':
            n = u64(e, st, a[1])
            fill(e, st, vec_new(e, st, self, es, t), n, lambda: default_elem(e, st, t, es))
        elif ps.startswith('(unsigned long, '):
            n = u64(e, st, a[1])
            note_copy(e, t)
            fill(e, st, vec_new(e, st, self, es, t), n, lambda: read_elem(e, st, a[2], es))
        elif 'iterator' in ps or '*' in ps:
            # range constructor
            f, l = a[1], a[2]
            if not isinstance(f, Ptr) or f.obj != l.obj:
                raise Unsupported('vector range constructor')
            note_copy(e, t)
            src = st.mem[f.obj]
            n = simp_poly(Poly({mo: c // es for mo, c in (l.off - f.off).m.items()}), st.ctx)
            o = vec_new(e, st, self, es, t)
            if n.const() is not None:
                for j in range(n.const()):
                    append(e, st, o, read_elem(e, st, Ptr(f.obj, f.off + j * es), es))
            elif src.kind == 'vec' and f.off.const() == 0 and decide(eq(n, src.n), st.ctx):
                o.n, o.segs = src.n, [clone_seg(e, st, s) for s in src.segs]
            else:
                raise Unsupported('vector range constructor')
        else:
            raise Unsupported('vector constructor ' + ps[:80])
        return None
    if meth == '~vector':
        cells, c = e.cells_of(st, self, 24, True)
        v = cells.pop(c, None)
        if v is not None and isinstance(v[1], Ref):
            st.mem.pop(v[1].id, None)
        return None
    if meth == 'operator=':
        if a[1].obj == self.obj and a[1].off == self.off:
            return self
        if 'initializer_list' in ps:
            o = vec_new(e, st, self, es, t)
            note_copy(e, t)
            for j in range(a[2].const()):
                append(e, st, o, read_elem(e, st, Ptr(a[1].obj, a[1].off + j * es), es))
            return self
        o = vec_store(e, st, a[1])
        if '&&' in ps:
            cells, c = e.cells_of(st, self, 24, True)
            old = cells.get(c)
            e.cell_write(cells, c, 24, Ref(o.id, 'vec'))
            vec_new(e, st, a[1], es, t)
            return self
        note_copy(e, t)
        vec_new(e, st, self, es, t, o.n, [clone_seg(e, st, s) for s in o.segs])
        return self
    if meth == 'swap':
        x, y = vec_store(e, st, self), vec_store(e, st, a[1])
        for p, o in ((self, y), (a[1], x)):
            cells, c = e.cells_of(st, p, 24, True)
            e.cell_write(cells, c, 24, Ref(o.id, 'vec'))
        return None
    if meth in ('push_back', 'emplace_back'):
        if meth == 'emplace_back' and not (ps.startswith('(%s' % t)):
            cells = made_elem(e, st, t, es, a[1:], ps)
            o = vec_store(e, st, self, True)
            append(e, st, o, cells)
            return Ptr(o.id, (o.n - 1).scale(es))
        note_copy(e, t)
        cells = read_elem(e, st, a[1], es)
        o = vec_store(e, st, self, True)
        append(e, st, o, cells)
        return Ptr(o.id, (o.n - 1).scale(es))
    if meth in ('size', 'length'):
        return vec_store(e, st, self).n
    if meth == 'empty':
        return eq(vec_store(e, st, self).n, ZERO)
    if meth in ('begin', 'cbegin', 'data', 'front'):
        o = vec_store(e, st, self)
        if meth == 'front':
            e.oblige(st, lt(ZERO, o.n), 'front() of a non-empty vector')
        return Ptr(o.id, ZERO)
    if meth in ('end', 'cend'):
        o = vec_store(e, st, self)
        return Ptr(o.id, o.n.scale(es))
    if meth == 'back':
        o = vec_store(e, st, self)
        e.oblige(st, lt(ZERO, o.n), 'back() of a non-empty vector')
        return Ptr(o.id, (o.n - 1).scale(es))
    if meth in ('operator[]', 'at'):
        o = vec_store(e, st, self)
        idx = u64(e, st, a[1])
        if meth == 'at':
            if not e.need(st, lt(idx, o.n)):
                return [(st, 'throw', 'out_of_range')]
        return Ptr(o.id, idx.scale(es))
    if meth == 'clear':
        o = vec_store(e, st, self, True)
        o.n, o.segs = ZERO, []
        return None
    if meth in ('reserve', 'shrink_to_fit'):
        return None
    if meth == 'capacity':
        o = vec_store(e, st, self)
        c = e.fresh(st, 'capacity', 0, (1 << 60))
        st.assume(le(o.n, c))
        return c
    if meth == 'max_size':
        return P((1 << 63) // es)
    if meth == 'pop_back':
        o = vec_store(e, st, self, True)
        e.oblige(st, lt(ZERO, o.n), 'pop_back of a non-empty vector')
        if o.segs and o.segs[-1].bv is None:
            o.segs.pop()
            o.n = o.n - 1
            return None
        raise Unsupported('pop_back')
    if meth == 'resize':
        n = u64(e, st, a[1])
        o = vec_store(e, st, self, True)
        if n.const() is not None and o.n.const() is not None and n.const() <= o.n.const():
            o.segs = [s for s in o.segs if s.start.const() < n.const()]
            o.n = n
            return None
        d = lambda: (read_elem(e, st, a[2], es) if len(a) > 2 else default_elem(e, st, t, es))
        if o.n.const() == 0 or o.n.const() is not None and n.const() is not None:
            fill(e, st, o, n - o.n, d)
            return None
        raise Unsupported('resize')
    if meth == 'assign' and ps.startswith('(unsigned long'):
        n = u64(e, st, a[1])
        fill(e, st, vec_new(e, st, self, es, t), n, lambda: read_elem(e, st, a[2], es))
        return None
    raise Unsupported('vector method ' + meth)


def fill(e, st, o, n, mk):
    c = n.const()
    if c is not None and c <= 64:
        for _ in range(c):
            cells = mk()
            append(e, st, st.w(o.id), cells)
        return
    if o.n.const() != 0:
        raise Unsupported('symbolic fill')
    cells = mk()
    if any(isinstance(v, Ref) for sz, v in cells.values()):
        raise Unsupported('symbolic fill with containers')
    o = st.w(o.id)
    if e.decide(st, eq(n, ZERO)) is True:
        return
    bv = T.bvar(0)
    o.segs = [Seg(ZERO, n, cells, bv)]
    o.n = n


VEC_METHODS = ('vector', '~vector', 'operator=', 'swap', 'push_back', 'emplace_back', 'size', 'empty', 'begin', 'cbegin', 'data', 'front', 'end',
               'cend', 'back', 'operator[]', 'at', 'clear', 'reserve', 'resize', 'assign', 'pop_back', 'capacity', 'max_size', 'shrink_to_fit')


class VecPat:
    """matches demangled names of public std::vector members"""
    def match(self, d):
        k = d.find('std::vector<')
        if k < 0:
            return None
        v = vtype(d)
        if not v or not v[1].startswith('::'):
            return None
        if k > 0:
            # a return type may precede (template members); otherwise this is not a vector member
            pre = d[:k]
            if not pre.endswith((' ', '& ', '* ')) or '(' in pre.replace('(anonymous', ''):
                return None
            if pre.count('<') != pre.count('>'):
                return None
        m = re.match(r'^::(operator=|operator\[\]|~?\w+)', v[1])
        if not m or m.group(1) not in VEC_METHODS:
            return None

        class M:
            string = d
        return M()


PATS.append((VecPat(), h_vector))


# the comparison / assignment of iterators etc. are ordinary inlined code

@pat(r'^void std::random_shuffle<(.*)>\((.*)\)$')
def _(e, st, a, i, m):
    import itertools
    f, l = a[0], a[1]
    targ = m.group(1)
    if targ.startswith('std::vector<') and targ.endswith('*'):
        es = 24
    elif targ.startswith('__gmp_expr<') and targ.endswith('*'):
        es = 16
    elif targ.startswith('__gnu_cxx::__normal_iterator'):
        es = st.mem[f.obj].es
    else:
        raise Unsupported('random_shuffle of ' + targ)
    n = (l.off - f.off).const()
    if f.obj != l.obj or n is None or n // es > 4:
        raise Unsupported('random_shuffle range')
    n //= es
    out = []
    for k, perm in enumerate(itertools.permutations(range(n))):
        s2 = st.clone()
        el = [raw_elem(e, s2, Ptr(f.obj, f.off + j * es), es) for j in range(n)]
        for j in range(n):
            cells, c = e.cells_of(s2, Ptr(f.obj, f.off + j * es), es, True)
            for kk in [kk for kk in cells if c <= kk < c + es]:
                del cells[kk]
            for kk, v in el[perm[j]].items():
                cells[c + kk] = v
        s2.log = s2.log + (('shuffle', perm),)
        out.append((s2, 'ret', None))
    return out


def raw_elem(e, st, p, es):
    cells, c = e.cells_of(st, p, es)
    return {k - c: v for k, v in cells.items() if c <= k < c + es}


# ------------------------------------------------------------------ OpenSSL EVP (AES-128-CTR)
def ctr_simpl(*args):
    v, n, key, iv, pos = args
    a = v.atom()
    if a is not None and a.kind == 'app' and a.args[0] == 'ctr' and a.args[2:] == (n, key, iv, pos):
        return a.args[1]
    if n.const() == 0:
        return ZERO
    return None


T.SIMPL['ctr'] = ctr_simpl
T.APP_RANGE['ctr'] = (0, INF)


def ctr(st, v, n, key, iv, pos):
    r = App('ctr', v, n, key, iv, pos)
    a = r.atom()
    if a is not None and a.kind == 'app' and a.args[0] == 'ctr':
        m = P(256 ** n.const()) if n.const() is not None else Pow(256, n)
        T.BELOW.add((a, T._one_pow(m)))
        st.assume(lt(r, m))
        st.assume(le(T.NBytes(r), n))
        hi = T.rng(n, st.ctx.rg)[1]
        if hi != INF:
            st.assume(le(T.NBytes(r), P(hi)))
    return r


@lib('EVP_CIPHER_CTX_new')
def _(e, st, a, i):
    o = new_obj(st, 'cells', 8, 'EVP_CIPHER_CTX')
    o.heap = True
    o.table = {'pos': ZERO}
    return Ptr(o.id)


@lib('EVP_CIPHER_CTX_free')
def _(e, st, a, i):
    free(e, st, a[0])


@lib('EVP_CIPHER_CTX_init', 'EVP_CIPHER_CTX_reset', 'EVP_CIPHER_CTX_set_padding')
def _(e, st, a, i):
    return ONE


@lib('EVP_aes_128_ctr')
def _(e, st, a, i):
    return FPtr('EVP_aes_128_ctr')


def evp(e, st, p):
    o = e.deref(st, p, 1, 'EVP context')
    if not isinstance(o.table, dict):
        raise Unsupported('EVP context')
    return o


def isnull(p):
    return isinstance(p, Ptr) and p.obj is None or isinstance(p, Poly) and p.const() == 0


@lib('EVP_EncryptInit_ex', 'EVP_DecryptInit_ex', 'EVP_EncryptInit', 'EVP_DecryptInit', 'EVP_CipherInit_ex')
def _(e, st, a, i):
    o = evp(e, st, a[0])
    nm = i.x[0][1]
    key, iv = (a[3], a[4]) if nm.endswith('_ex') else (a[2], a[3])
    t = dict(o.table)
    if not isnull(a[1]):
        if not isinstance(a[1], FPtr) or a[1].name != 'EVP_aes_128_ctr':
            raise Unsupported('cipher')
        t['cipher'] = a[1].name
    for nme, p in (('key', key), ('iv', iv)):
        if not isnull(p):
            b = e.deref(st, p, 16, 'AES ' + nme)
            e.bounds(st, b, p.off, P(16), 'AES-128 %s of 16 bytes' % nme)
            t[nme] = simp_poly(e.bytes_value(st, b, p.off, P(16)), st.ctx)
            t['pos'] = ZERO
    st.w(o.id).table = t
    return ONE


@lib('EVP_EncryptUpdate', 'EVP_DecryptUpdate', 'EVP_CipherUpdate')
def _(e, st, a, i):
    o = evp(e, st, a[0])
    out, outl, inp, inl = a[1:5]
    t = o.table
    if 'key' not in t or 'iv' not in t or 'cipher' not in t:
        e.fail(st, 'AES used without a key / IV')
    n = SG(inl, 32, st.ctx.rg)
    if e.need(st, eq(n, ZERO)):
        e.store(st, outl, ZERO, 32)
        return ONE
    if not e.need(st, lt(ZERO, n)):
        raise Unsupported('negative EVP length %s' % T.show(n))
    src = e.deref(st, inp, 1, 'AES input')
    e.bounds(st, src, inp.off, n, 'AES input')
    v = simp_poly(e.bytes_value(st, src, inp.off, n), st.ctx)
    dst = e.deref(st, out, 1, 'AES output')
    if dst.kind != 'bytes':
        raise Unsupported('AES output buffer')
    e.bounds(st, dst, out.off, n, 'AES output buffer')
    e.bytes_write(st, st.w(dst.id), out.off, n, ctr(st, v, n, t['key'], t['iv'], t['pos']))
    t = dict(t)
    t['pos'] = t['pos'] + n
    st.w(o.id).table = t
    e.store(st, outl, n, 32)
    return ONE


@lib('EVP_EncryptFinal_ex', 'EVP_DecryptFinal_ex', 'EVP_EncryptFinal', 'EVP_DecryptFinal', 'EVP_CipherFinal_ex')
def _(e, st, a, i):
    evp(e, st, a[0])
    e.store(st, a[2], ZERO, 32)
    return ONE


LIB['@'] = PATS
