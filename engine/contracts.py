"""Contracts of /repo's functions.  `apply` states a function's precondition (as obligations
at the call site), its frame (only what it writes through the state changes) and its
postcondition (the new values).  The same object is used for callers (instead of the body)
and, in tasks.py, against the body."""
import re

from terms import *
import terms as T
from symex import *
from points import *
import prover as PR
from prover import simp_poly


class Contract:
    name = None
    rx = None

    def match(s, dem):
        return s.rx.fullmatch(dem) is not None


MPZ = r'__gmp_expr<__mpz_struct \[1\], __mpz_struct \[1\]>'


# ------------------------------------------------------------------ prime fields
def field_at(e, st, p):
    """-> (value, modulus) of the field element at p, or None"""
    cells, c = e.cells_of(st, p, 32, what='field element')
    v, m = cells.get(c), cells.get(c + 16)
    if v is None or m is None or not isinstance(v[1], Z) or not isinstance(m[1], Z):
        return None
    return v[1].v, m[1].v


def field_set(e, st, p, v, m):
    cells, c = e.cells_of(st, p, 32, True, what='field element')
    for k in [k for k in cells if c <= k < c + 32]:
        del cells[k]
    cells[c] = (16, Z(v))
    cells[c + 16] = (16, Z(m))


class FieldOp(Contract):
    """value' = op(values) mod p, in [0,p); the modulus is the field's prime; operands unchanged"""

    def __init__(s, F, op, arg, sret, fn):
        s.F, s.p, s.op, s.arg, s.sret, s.fn = F, FIELDS[F], op, arg, sret, fn
        a = {'F': r'field::%s const&' % F, 'Z': MPZ + ' const&', '': ''}[arg]
        s.rx = re.compile(r'field::PrimeField<field::%s>::operator%s\(%s\)( const)?' % (F, re.escape(op), a)
                          if not op.isalpha() else r'field::PrimeField<field::%s>::%s\(\) const' % (F, op))
        s.name = '%s::%s%s%s' % (F, '' if op.isalpha() else 'operator', op, {'F': '(field)', 'Z': '(mpz)', '': '()'}[arg])

    def operands(s, e, st, args, check=True):
        k = 1 if s.sret else 0
        ptrs = [args[k]] + ([args[k + 1]] if s.arg == 'F' else [])
        vals = []
        for q in ptrs:
            f = field_at(e, st, q)
            if f is None:
                return None
            v, m = f
            if check:
                if e.decide(st, eq(m, P(s.p))) is not True:
                    return None
                e.oblige(st, and_(le(ZERO, v), lt(v, P(s.p))), 'precondition of %s: operand in [0,p)' % s.name)
            vals.append(v)
        if s.arg == 'Z':
            vals.append(e.zget(st, args[k + 1]))
        return vals

    def apply(s, e, st, args, name, dem):
        vals = s.operands(e, st, args)
        if vals is None:
            return NotImplemented
        if s.op in ('/', '/='):
            e.oblige(st, not_(eq(vals[1], ZERO)), 'precondition of %s: divisor nonzero' % s.name)
        if s.op == 'invert':
            e.oblige(st, not_(eq(vals[0], ZERO)), 'precondition of %s: operand nonzero' % s.name)
        if s.op == '==':
            return [(st, 'ret', eq(vals[0], vals[1]))]
        r = s.fn(s.p, *vals)
        field_set(e, st, args[0], r, P(s.p))
        return [(st, 'ret', None if s.sret else args[0])]


def _div(p, a, b):
    return Mod(a * Inv(b, p), p)


FOPS = [
    ('+', 'F', 1, lambda p, a, b: Mod(a + b, p)),
    ('+=', 'F', 0, lambda p, a, b: Mod(a + b, p)),
    ('-', '', 1, lambda p, a: Mod(-a, p)),
    ('-', 'F', 1, lambda p, a, b: Mod(a - b, p)),
    ('-=', 'F', 0, lambda p, a, b: Mod(a - b, p)),
    ('*', 'F', 1, lambda p, a, b: Mod(a * b, p)),
    ('*', 'Z', 1, lambda p, a, b: Mod(a * b, p)),
    ('*=', 'F', 0, lambda p, a, b: Mod(a * b, p)),
    ('*=', 'Z', 0, lambda p, a, b: Mod(a * b, p)),
    ('square', '', 1, lambda p, a: Mod(a * a, p)),
    ('==', 'F', 0, None),
]
FDIV = [
    ('/', 'F', 1, _div),
    ('/=', 'F', 0, _div),
    ('invert', '', 1, lambda p, a: Inv(a, p)),
]


class FieldCtor(Contract):
    """value = v mod p for every integer v; modulus p"""

    def __init__(s, F, arg):
        s.F, s.p, s.arg = F, FIELDS[F], arg
        s.rx = re.compile(r'field::%s::%s\(%s\)' % (F, F, MPZ if arg else ''))
        s.name = '%s::%s(%s)' % (F, F, 'mpz' if arg else '')

    def apply(s, e, st, args, name, dem):
        v = Mod(e.zget(st, args[1]), s.p) if s.arg else ZERO
        field_set(e, st, args[0], v, P(s.p))
        return [(st, 'ret', None)]


# ------------------------------------------------------------------ curve points
def TPL(c):
    return r'<ecc::Curve_%s, ecc::Point_%s, field::Field_%s_p, field::Field_%s_n>' % (c, c, c, c)


class PointOp(Contract):
    """a point is d*G; the result's d is the stated combination of the operands' d"""

    def __init__(s, ci, op, arg, sret):
        s.ci, s.op, s.arg, s.sret = ci, op, arg, sret
        c = ci.name
        a = {'P': r'ecc::Point_%s const&' % c, 'Z': MPZ + ' const&', 'N': r'field::Field_%s_n const&' % c, '': ''}[arg]
        s.rx = re.compile(r'ecc::Point%s::%s%s\(%s\)( const)?' % (TPL(c), '' if op.isalpha() else 'operator', re.escape(op), a))
        s.name = 'Point_%s::%s%s%s' % (c, '' if op.isalpha() else 'operator', op,
                                      {'P': '(point)', 'Z': '(mpz)', 'N': '(scalar)', '': '()'}[arg])

    def apply(s, e, st, args, name, dem):
        k = 1 if s.sret else 0
        t = pt_read(e, st, args[k])
        if t is None or t[0] is not s.ci:
            raise Unsupported('%s: operand is not recognised as a point: %s' % (s.name, pt_show(e, st, args[k])))
        d1, c1 = t[1], t[2]
        s.alive(e, st, d1, c1)
        if s.arg == 'P':
            q = pt_read(e, st, args[k + 1])
            if q is None or q[0] is not s.ci:
                raise Unsupported('%s: operand is not recognised as a point: %s' % (s.name, pt_show(e, st, args[k + 1])))
            d2, c2 = q[1], q[2]
            s.alive(e, st, d2, c2)
            if s.op == '==':
                return [(st, 'ret', eq(Mod(d1, s.ci.n), Mod(d2, s.ci.n)))]
            d = d1 + d2 if s.op in ('+', '+=') else d1 - d2
            cv = s.curve(e, st, d1, c1, d2, c2)
        elif s.arg == 'N':
            f = field_at(e, st, args[k + 1])
            if f is None or f[1].const() != s.ci.n:
                return NotImplemented
            e.oblige(st, and_(le(ZERO, f[0]), lt(f[0], P(s.ci.n))), 'precondition of %s: scalar in [0,n)' % s.name)
            d, cv = d1 * f[0], c1
        elif s.arg == 'Z':
            d, cv = d1 * e.zget(st, args[k + 1]), c1
        else:
            d, cv = d1 * 2, c1
        d = Mod(d, s.ci.n)
        pt_write(e, st, args[0], s.ci, d, maybe_null(e, st, cv, d))
        return [(st, 'ret', None if s.sret else args[0])]

    def alive(s, e, st, d, c):
        """a finite operand refers to a living curve object with the standard parameters"""
        if c.obj is None:
            z = eq(Mod(d, s.ci.n), ZERO)
            if z is not TRUE:
                e.oblige(st, z, 'precondition of %s: the operand refers to a curve' % s.name)
        elif c.obj not in st.mem or not curve_ok(e, st, Ptr(c.obj, c.off), s.ci):
            e.oblige(st, or_(c.null, eq(Mod(d, s.ci.n), ZERO)), 'precondition of %s: the curve object of the operand is alive and intact' % s.name)

    def curve(s, e, st, d1, c1, d2, c2):
        if c1.obj == c2.obj:
            return c1 if c1.obj is not None else c1
        if c1.obj is None:
            return c2
        if c2.obj is None:
            return c1
        if e.alias_curves and all(c.obj in st.mem and curve_ok(e, st, Ptr(c.obj, c.off), s.ci) for c in (c1, c2)):
            return either(e, st, s.ci, c1, c2)
        # which object the result refers to depends on which operand is the neutral element
        return c2 if e.need(st, eq(Mod(d1, s.ci.n), ZERO)) else c1


def curves_intact(e, st, o):
    """every curve object the view stands for still exists with its parameters"""
    ci = pt_at(o.cells, 48)
    return all(k in st.mem and curve_ok(e, st, Ptr(k), ci) for k in o.al)


def either(e, st, ci, c1, c2):
    """one of two curve objects with the standard parameters (used in client tasks only): reads see
    the common contents; every use requires that all of them are alive and intact (Engine.deref)"""
    ids = frozenset()
    for c in (c1, c2):
        o = st.mem[c.obj]
        ids |= o.al or frozenset([c.obj])
    for c in (c1, c2):
        o = st.mem[c.obj]
        if o.al == ids:
            return Ptr(c.obj)
    for k, o in st.mem.items():
        if o.al == ids:
            return Ptr(k)
    o = new_obj(st, 'cells', CURVE_SIZE, 'one of several curve objects')
    o.cells.update(curve_cells(ci, Ptr(o.id)))
    o.ro = True
    o.al = ids
    return Ptr(o.id)


POPS = [('+', 'P', 1), ('+=', 'P', 0), ('-', 'P', 1), ('-=', 'P', 0), ('==', 'P', 0), ('pointDouble', '', 1)]
PMUL = [('*', 'N', 1), ('*', 'Z', 1), ('*=', 'N', 0)]


class Evaluate(Contract):
    """evaluateP(x): the point with abscissa x (principal root), infinity if there is none;
    evaluatePneg(x): its negative"""

    def __init__(s, ci, op):
        s.ci, s.op = ci, op
        c = ci.name
        s.rx = re.compile(r'ecc::Curve%s::%s\(field::Field_%s_p const&\)( const)?' % (TPL(c), op, c))
        s.name = 'Curve_%s::%s' % (c, op)

    def apply(s, e, st, args, name, dem):
        f = field_at(e, st, args[2])
        if f is None or f[1].const() != s.ci.p or not curve_ok(e, st, args[1], s.ci):
            return NotImplemented
        x = f[0]
        e.oblige(st, and_(le(ZERO, x), lt(x, P(s.ci.p))), 'precondition of %s: x in [0,p)' % s.name)
        d = App(s.ci.EP, x)
        st.assume(or_(eq(d, ZERO), eq(s.ci.x(d), x)))
        a = x.atom()
        if a is not None and a.kind == 'app' and a.args[0] == s.ci.X:
            # the only points with the abscissa of d0*G are d0*G and -d0*G
            d0 = a.args[1]
            st.assume(or_(eq(d0, ZERO), eq(d, d0), eq(d, Mod(-d0, s.ci.n))))
        if s.op == 'evaluatePneg':
            d = -d
        d = Mod(d, s.ci.n)
        pt_write(e, st, args[0], s.ci, d, maybe_null(e, st, args[1], d))
        return [(st, 'ret', None)]


CURVE_SIZE = 160


def curve_cells(ci, self):
    """contents of a Curve object: offset -> (size, value)"""
    r = {}
    for k, v in zip(curve_layout(), (ci.p, ci.a, ci.b, ci.n, 1)):
        r[k] = (16, Z(P(v)))
    for k, v in {0: (16, Z(P(ci.gx))), 16: (16, Z(P(ci.p))), 32: (16, Z(P(ci.gy))), 48: (16, Z(P(ci.p))),
                 64: (1, ZERO), 72: (8, self)}.items():
        r[48 + k] = v
    return r


def same_ptr(a, b):
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.off == b.off


def curve_ok(e, st, p, ci, G=False):
    """does p point to a Curve object with the standard constants?  (G: with its base point too)"""
    try:
        cells, c = e.cells_of(st, Ptr(p.obj, p.off, p.null), CURVE_SIZE, what='curve')
        for k, (sz, v) in curve_cells(ci, p).items():
            if 48 <= k < 128 and not G:
                continue
            w = cells.get(c + k)
            if w is None or w[0] != sz:
                return False
            if isinstance(v, Ptr):
                if not isinstance(w[1], Ptr):
                    return False
            elif not same(w[1], v):
                return False
    except (Unsupported, KeyError):
        return False
    return True


def curve_layout():
    return (0, 16, 32, 128, 144)


class CurveCtor(Contract):
    """the standard curve constants, base point and order"""

    def __init__(s, ci):
        s.ci = ci
        s.rx = re.compile(r'ecc::Curve_%s::Curve_%s\(\)' % (ci.name, ci.name))
        s.name = 'Curve_%s()' % ci.name

    def apply(s, e, st, args, name, dem):
        cells, c = e.cells_of(st, args[0], CURVE_SIZE, True, 'curve')
        for k in [k for k in cells if c <= k < c + CURVE_SIZE]:
            del cells[k]
        for k, v in curve_cells(s.ci, Ptr(args[0].obj, args[0].off)).items():
            cells[c + k] = v
        return [(st, 'ret', None)]


class CurveRandom(Contract):
    """getRandomScalar: one new draw from [0,n).  getRandomPoint: base point times a new draw.
    generateKeyPair: sk a new draw, pk the base point times sk"""

    def __init__(s, ci, op):
        s.ci, s.op = ci, op
        s.rx = re.compile(r'ecc::Curve%s::%s\(\) const' % (TPL(ci.name), op))
        s.name = 'Curve_%s::%s' % (ci.name, op)

    def apply(s, e, st, args, name, dem):
        from lib import draw
        if not curve_ok(e, st, args[1], s.ci, True):
            return NotImplemented
        n = s.ci.n
        d = draw(e, st, 1 if s.op == 'getRandomPoint' and e.finite_points else 0, n - 1, s.op)
        G = pt_read(e, st, Ptr(args[1].obj, args[1].off + 48, args[1].null))
        if s.op == 'getRandomScalar':
            field_set(e, st, args[0], d, P(n))
            return [(st, 'ret', None)]
        cv = maybe_null(e, st, G[2], d)
        if s.op == 'getRandomPoint':
            pt_write(e, st, args[0], s.ci, d, cv)
        else:
            cells, c = e.cells_of(st, args[0], 16 + PT_SIZE, True, 'key pair')
            cells[c] = (16, Z(d))
            pt_write(e, st, Ptr(args[0].obj, args[0].off + 16), s.ci, d, cv)
        return [(st, 'ret', None)]


class Crc(Contract):
    """the CRC-32C register after the given bytes; reads exactly these"""

    def __init__(s, ns):
        s.fn = ns + 'calculate_crc32c'
        s.rx = re.compile(re.escape(s.fn) + r'\(unsigned int, unsigned char const\*, unsigned (int|long)\)')
        s.name = 'CRC ' + s.fn

    def apply(s, e, st, args, name, dem):
        import crc32c
        c, p, n = args
        n = simp_poly(P(n), st.ctx)
        if e.need(st, eq(n, ZERO)):
            return [(st, 'ret', c)]
        o = e.deref(st, p, 1, 'checksum')
        if o.kind != 'bytes' or o.table:
            return NotImplemented
        e.bounds(st, o, p.off, n, 'checksum')
        return [(st, 'ret', crc32c.crc(c, e.bytes_value(st, o, p.off, n), n, n))]


class IsValid(Contract):
    """a multiple of the base point that refers to a living curve object is valid"""

    def __init__(s, ci):
        s.ci = ci
        s.rx = re.compile(r'ecc::Point%s::isValid\(\) const' % TPL(ci.name))
        s.name = 'Point_%s::isValid' % ci.name

    def apply(s, e, st, args, name, dem):
        t = pt_read(e, st, args[0])
        if t is None or t[0] is not s.ci:
            return NotImplemented
        z = eq(Mod(t[1], s.ci.n), ZERO)
        c = t[2]
        if z is not TRUE:
            if c.obj is None or c.obj not in st.mem or not curve_ok(e, st, Ptr(c.obj, c.off), s.ci) or not PR.prove(or_(z, not_(c.null)), st.ctx):
                return NotImplemented
        return [(st, 'ret', TRUE)]


class AesCrc(Contract):
    """encryptCRC(k, m): a function aescrc of key, message and initial counter, of bounded size;
    decryptCRC(k, c): a function aesdec of key, ciphertext and initial counter, with
    aesdec(k, aescrc(k, m, iv), iv) = m.  Keys in [0, 2^128), messages and ciphertexts >= 0"""
    SIZE = (1 << 31) - 64

    def __init__(s, op):
        s.op = op
        z = MPZ + '( const&)?'
        s.rx = re.compile(r'aes::AES::%s\(%s, %s\) const' % (op, z, z))
        s.name = 'AES ' + op

    def apply(s, e, st, args, name, dem):
        import lib
        out, this, kz, mz = args
        k, m = e.zget(st, kz), e.zget(st, mz)
        g = [n for n, d in e.dem.items() if re.fullmatch(r'aes::AES::iv(\[abi:cxx11\])?', d or '')]
        g = g or [n for n in ('_ZN3aes3AES2ivB5cxx11E', ) if e.mod.global_init(n)]
        o = lib.str_obj(e, st, Ptr(e.glob(st, g[0])))
        e.oblige(st, le(P(16), o.n), 'precondition of %s: 16 bytes of initial counter' % s.name)
        iv = simp_poly(e.bytes_value(st, o, ZERO, P(16)), st.ctx)
        e.oblige(st, and_(le(ZERO, k), lt(k, P(1 << 128))), 'precondition of %s: key in [0, 2^128)' % s.name)
        e.oblige(st, and_(le(ZERO, m), lt(m, P(256 ** 4096)) if rng(m, st.ctx.rg)[1] != INF else le(T.NBytes(m), P(s.SIZE))),
                 'precondition of %s: a non-negative number of less than 2^31 - 64 bytes' % s.name)
        k, m = simp_poly(k, st.ctx), simp_poly(m, st.ctx)
        r = (aescrc if s.op == 'encryptCRC' else aesdec)(k, m, iv)
        e.zset(st, out, r)
        return [(st, 'ret', None)]


class Encode(Contract):
    """encode(m), 0 <= m < p / 2^10: a finite point on the object's curve that decodes to m
    (decode reads the abscissa only), provided the search ends within the padding range.
    The i-th call's result is the multiple enc(m, i)"""
    rx = re.compile(r'dme::DME_DDH::encode\(%s const&\) const' % MPZ)
    name = 'DME encode'
    ON = [False]

    def apply(s, e, st, args, name, dem):
        if not s.ON[0]:
            return NotImplemented
        out, this, mz = args
        m = simp_poly(e.zget(st, mz), st.ctx)
        e.oblige(st, and_(le(ZERO, m), le(m, P((SECP.p >> 10) - 1))), 'precondition of %s: 0 <= m < p / 2^10' % s.name)
        st.cnt += 1
        d = App('enc', m, P(st.cnt), lo=1, hi=SECP.n - 1)
        fn = ['ob_dme_curve']
        (_, _, cv), = e.run_func(st.clone(), fn[0], [this])
        pt_write(e, st, out, SECP, d, cv)
        return [(st, 'ret', None)]


def aescrc(k, m, iv):
    hi = rng(m)[1]
    return App('aescrc', k, m, iv, lo=1, hi=INF if hi == INF else 2 * 256 ** ((int(hi).bit_length() + 7) // 8 + 4) - 1)


def aesdec(k, c, iv):
    hi = rng(c)[1]
    return App('aesdec', k, c, iv, lo=0, hi=INF if hi == INF else 256 ** ((int(hi).bit_length() + 7) // 8) - 1)


NOMATCH = [False]       # assumption of a task: the keys drawn differ, and no accidental checksum match under a different key


def _drawn(k):
    """a value drawn at random"""
    a = k.atom()
    return a is not None and a.kind == 'sym' and str(a.args[0]).startswith('rand#')


def _aesdec(k, c, iv):
    a = c.atom()
    if a is not None and a.kind == 'app' and a.args[0] == 'aescrc':
        if a.args[1] == k and a.args[3] == iv:
            return a.args[2]
        if NOMATCH[0] and a.args[3] == iv and _drawn(k) and _drawn(a.args[1]):
            return ZERO
        return None
    if a is None and not c.is_const():
        # a selection: distribute over the conditions
        bs = sorted({x for mo in c.m for x in mo if rng(x.poly) == (0, 1)}, key=repr)
        if 0 < len(bs) <= 2:
            b = bs[0]
            c0, c1 = (T.subst(c, {b: P(v)}) for v in (0, 1))
            r0, r1 = (aesdec(k, x, iv) for x in (c0, c1))
            return r0 + b.poly * (r1 - r0)
    return None


T.SIMPL['aesdec'] = _aesdec

ALL = [Crc(''), Crc('crc_client::'), Encode(), AesCrc('encryptCRC'), AesCrc('decryptCRC')]
for _F in FIELDS:
    for _o in FOPS + FDIV:
        ALL.append(FieldOp(_F, *_o))
    ALL.append(FieldCtor(_F, True))
    ALL.append(FieldCtor(_F, False))
for _c in (SECP, BN):
    for _o in POPS + PMUL:
        ALL.append(PointOp(_c, *_o))
    for _o in ('evaluateP', 'evaluatePneg'):
        ALL.append(Evaluate(_c, _o))
    ALL.append(CurveCtor(_c))
    ALL.append(IsValid(_c))
    for _o in ('getRandomPoint', 'getRandomScalar', 'generateKeyPair'):
        ALL.append(CurveRandom(_c, _o))
BYNAME_ = {c.name: c for c in ALL}
