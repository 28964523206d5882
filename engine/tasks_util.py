"""C19: byte-string conversions; C20, C21: checksums (clients in harness/c_util.cpp, c_crc.cpp)."""
from tasks_dme import *
import re
import lib
import crc32c
from symex import BSeg

BIG = 1 << 40            # buffers are shorter than this


def put_bytes(st, n, v, name='buffer', heap=False):
    o = new_obj(st, 'bytes', n.const() if P(n).is_const() else P(n), name)
    o.segs = [BSeg(ZERO, n, v)]
    o.heap = heap
    return Ptr(o.id)


def bytestring(st, n, name):
    """the value of an arbitrary string of n bytes"""
    v = S(name, 0, INF)
    st.assume(lt(v, P(256 ** n.const()) if n.is_const() else T.Pow(256, n)))
    return v


def c19_export(ctl):
    D = Drv(ctl, 'getRawMpz')
    e = D.e
    st0 = State()
    for v in (S('n', 1, INF), ZERO):
        st = st0.clone()
        z, a = put_z(e, st, v, 'n'), cells(st, 8, 'arr')
        for st1, ln in D.call(st, 'ut_export', z, a):
            D.n += 1
            e.oblige(st1, eq(ln, T.NBytes(v) if v is not ZERO else ZERO), 'getRawMpz: the length is that of the minimal representation')
            e.oblige(st1, eq(e.zget(st1, z), v), 'getRawMpz: the integer is unchanged')
            if v is not ZERO:
                q = D.ptr(st1, a)
                o = e.deref(st1, q, 1, 'the bytes')
                e.oblige(st1, eq(e.bytes_value(st1, o, q.off, ln), v), 'getRawMpz: the bytes are the big-endian representation')
                lib.free(e, st1, q)
    D.done(st0)


def c19_import(ctl):
    D = Drv(ctl, 'setRawMpz')
    e = D.e
    st0 = State()
    for n in (S('len', 1, BIG), ZERO):
        st = st0.clone()
        v = bytestring(st, n, 'v')
        for pre in (ZERO, S('before', 1, BIG)):
            s2 = st.clone()
            # the string lies anywhere in a larger buffer
            p = put_bytes(s2, pre + n + 1, ZERO)
            s2.mem[p.obj].segs = [BSeg(a, b, c) for a, b, c in ((ZERO, pre, S('earlier bytes', 0, INF)), (pre, n, v)) if b is not ZERO]
            segs = list(s2.mem[p.obj].segs)
            out = put_z(e, s2, ZERO, 'out')
            for st1, _ in D.call(s2, 'ut_import', Ptr(p.obj, pre), n, out):
                D.n += 1
                e.oblige(st1, eq(e.zget(st1, out), v if n is not ZERO else ZERO), 'setRawMpz: the integer denoted by the bytes')
                e.oblige(st1, bconst(st1.mem[p.obj].segs == segs), 'setRawMpz: the bytes are unchanged')
    D.done(st0)


def c19_round(ctl):
    D = Drv(ctl, 'round trip')
    e = D.e
    st0 = State()
    for v in (S('n', 1, INF), ZERO):
        st = st0.clone()
        z, out = put_z(e, st, v, 'n'), put_z(e, st, S('old', -INF, INF), 'out')
        for st1, _ in D.call(st, 'ut_round', z, out):
            D.n += 1
            e.oblige(st1, eq(e.zget(st1, out), v), 'setRawMpz(getRawMpz(n)) = n')
    D.done(st0)


def c19_random(ctl):
    D = Drv(ctl, 'getRandom')
    e = D.e
    st0 = State()
    for bits in (P(0), P(1), P(8), P(64), P(127), P(128), P(256), S('bits', 0, BIG)):
        st = st0.clone()
        out = put_z(e, st, ZERO, 'out')
        for st1, _ in D.call(st, 'ut_random', bits, out):
            D.n += 1
            r = e.zget(st1, out)
            e.oblige(st1, and_(le(ZERO, r), lt(r, P(2 ** bits.const()) if bits.is_const() else T.Pow(2, bits))), 'getRandom(%s): in [0, 2^bits)' % T.show(bits))
            d = [x for x in st1.log if x[0] not in ('each', 'shuffle')]
            e.oblige(st1, bconst(len(d) == 1) if bits.const() != 0 else TRUE, 'getRandom(%s): one draw' % T.show(bits))
            for x in d[:1]:
                e.oblige(st1, and_(eq(x[1], r), eq(P(x[2]), ZERO)), 'getRandom(%s): the value drawn' % T.show(bits))
                if bits.is_const():
                    e.oblige(st1, eq(P(x[3]), P(2 ** bits.const() - 1)), 'getRandom(%s): of all values' % T.show(bits))
    D.done(st0)


for _n, _f in (('getRawMpz', c19_export), ('setRawMpz', c19_import), ('round trip', c19_round), ('getRandom', c19_random)):
    TASKS['bytes ' + _n] = Task('bytes ' + _n, _f)


# ------------------------------------------------------------------ C20
def c20(ctl, fn, name, least=0, optional=False):
    rx = r'%s\((unsigned int, (unsigned char|void) const\*, unsigned (int|long))\)' % fn
    D = Drv(ctl, name, inline=['CRC ' + fn])
    e = D.e
    if optional and not any(re.fullmatch(rx, d) and not ctl.mod.is_decl(m) for m, d in e.dem.items()):
        return                       # a helper that need not exist
    st0 = State()
    n = S('n', max(least, 1), (1 << 32) - 1)
    c = S('crc', 0, (1 << 32) - 1)
    for al in (0, 1, 2, 3):
        for ln in (n, ) + ((ZERO, ) if not least else ()):
            st = st0.clone()
            v = bytestring(st, n, 'bytes')
            p = put_bytes(st, al + n, ZERO)
            st.mem[p.obj].segs = [BSeg(P(al), n, v)]
            for st1, r in D.call(st, rx, c, Ptr(p.obj, P(al)), ln):
                D.n += 1
                e.oblige(st1, eq(r, crc32c.crc(c, v, n, ln)), '%s: the CRC of the bytes (alignment %d)' % (name, al))
                e.oblige(st1, bconst([(g.start, g.n, g.v) for g in st1.mem[p.obj].segs] == [(P(al), n, v)]), '%s: the bytes are unchanged' % name)
    D.done(st0)


for _ns in ('', 'crc_client::'):
    for _n, _l in (('calculate_crc32c', 0), ('singletable_crc32c', 0), ('multitable_crc32c', 4)):
        def _f(ctl, ns=_ns, n=_n, l=_l):
            c20(ctl, ns + n, 'CRC ' + ns + n, l, n[0] != 'c')
        TASKS['CRC ' + _ns + _n] = Task('CRC ' + _ns + _n, _f)


# ------------------------------------------------------------------ C21
def le4(c):
    """the four bytes of a word, least significant first, as a big-endian number"""
    return sum((Mod(Div(c, 256 ** k), 256).scale(256 ** (3 - k)) for k in range(4)), ZERO)


def checksum(v, ln):
    return crc32c.crc(ZERO, v, ln, ln)


def fits(st, v):
    """the integer has fewer than 2^32 - 4 bytes (the checksum's length parameter is an unsigned int)"""
    if v is not ZERO:
        st.assume(le(T.NBytes(v), P((1 << 32) - 5)))


def c21_append(ctl):
    D = Drv(ctl, 'appendCRC')
    e = D.e
    st0 = State()
    for v in (S('n', 1, INF), ZERO):
        st = st0.clone()
        fits(st, v)
        z, out = put_z(e, st, v, 'n'), put_z(e, st, ZERO, 'out')
        for st1, _ in D.call(st, 'cr_append', z, out):
            D.n += 1
            want = ZERO if v is ZERO else v * (1 << 32) + le4(checksum(v, T.NBytes(v)))
            e.oblige(st1, eq(e.zget(st1, out), want), 'appendCRC: the bytes followed by their checksum')
            e.oblige(st1, eq(e.zget(st1, z), v), 'appendCRC: the integer is unchanged')
            for st2, r in D.call(st1, 'cr_validate', out):
                e.oblige(st2, eq(r, ONE), 'validateCRC(appendCRC(n))')
                for st3, _ in D.call(st2, 'cr_remove', out, z):
                    e.oblige(st3, eq(e.zget(st3, z), v), 'removeCRC(appendCRC(n)) = n')
    D.done(st0)


def c21_validate(ctl):
    D = Drv(ctl, 'validateCRC')
    e = D.e
    st0 = State()
    for v, what in ((S('n', 1 << 24, INF), 'four bytes or more'), (S('n', 1, (1 << 24) - 1), 'fewer than four bytes'), (ZERO, 'zero')):
        st = st0.clone()
        fits(st, v)
        z, out = put_z(e, st, v, 'n'), put_z(e, st, ZERO, 'out')
        for st1, r in D.call(st.clone(), 'cr_validate', z):
            D.n += 1
            m = T.NBytes(v) - 4 if v is not ZERO else ZERO
            if what[:4] == 'four':
                # two ways to say it: reversing four bytes is an involution
                c = checksum(Div(v, 1 << 32), m)
                oks = (eq(le4(Mod(v, 1 << 32)), c), eq(Mod(v, 1 << 32), le4(c)))
                e.oblige(st1, or_(*[x for ok in oks for x in (and_(eq(r, ONE), ok), and_(eq(r, ZERO), not_(ok)))]), 'validateCRC: exactly when the last four bytes are the checksum of the others')
            else:
                e.oblige(st1, eq(r, ONE if v is ZERO else ZERO), 'validateCRC: ' + what)
            e.oblige(st1, eq(e.zget(st1, z), v), 'validateCRC: the integer is unchanged')
        for st1, _ in D.call(st, 'cr_remove', z, out):
            D.n += 1
            e.oblige(st1, eq(e.zget(st1, out), Div(v, 1 << 32)), 'removeCRC: all but the last four bytes')
            e.oblige(st1, eq(e.zget(st1, z), v), 'removeCRC: the integer is unchanged')
    D.done(st0)


TASKS['CRC append'] = Task('CRC append', c21_append)
TASKS['CRC validate'] = Task('CRC validate', c21_validate)
