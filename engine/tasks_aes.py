"""C22, C23: AES (clients in harness/c_aes.cpp)."""
from tasks_util import *

SIZE = (1 << 31) - 64            # the length parameter of the OpenSSL functions is an int
ASSUME_SIZE = 'plaintexts and ciphertexts have fewer than 2^31 - 64 bytes (the length parameter of the OpenSSL functions is an int)'
KEYS = ((1, (1 << 120) - 1, 'key below 2^120'), (1 << 120, (1 << 128) - 1, 'key of 128 bits'), (0, 0, 'key zero'))


def put_string(e, st, n, v):
    p = cells(st, 32, 'string')
    lib.str_new(e, st, p, n, v)
    return p


def ivs(D, st0):
    """-> (state, description, initial counter block)"""
    e = D.e
    yield st0.clone(), 'default initial counter', ZERO
    for st, _ in D.call(st0.clone(), 'ae_default'):
        yield st, 'init()', ZERO
    v = S('iv', 0, (1 << 128) - 1)
    for n in (0, 1, 15, 16, 17, 40):
        st = st0.clone()
        s = bytestring(st, P(n), 'string') if n else ZERO
        p = put_string(e, st, P(n), s if n else None)
        want = s * 256 ** (16 - n) if n <= 16 else Div(s, 256 ** (n - 16))
        for st1, _ in D.call(st, 'ae_init', p):
            yield st1, 'init(string of %d bytes)' % n, want


def short(st, v):
    if v is not ZERO:
        st.assume(le(T.NBytes(v), P(SIZE)))


def key(st, lo, hi):
    return P(lo) if lo == hi else S('key', lo, hi)


def drv(ctl, what):
    return Drv(ctl, what, may_change=[r'^aes::AES::iv'])


def c22(ctl, init):
    D = drv(ctl, 'AES')
    e = D.e
    st0 = State()
    for st_, how, iv in ivs(D, st0):
        if not init and how != 'init(string of 16 bytes)' or init and how == 'init(string of 16 bytes)':
            continue
        for lo, hi, kn in KEYS:
            for m in (S('m', 1, INF), ZERO):
                st = st_.clone()
                short(st, m)
                k = key(st, lo, hi)
                kz, mz, c, r = put_z(e, st, k, 'key'), put_z(e, st, m, 'm'), put_z(e, st, ZERO, 'c'), put_z(e, st, ZERO, 'r')
                w = '%s, %s' % (how, kn)
                for st1, _ in D.call(st, 'ae_enc', kz, mz, c):
                    D.n += 1
                    if m is not ZERO:
                        n = T.NBytes(m)
                        e.oblige(st1, eq(Mod(e.zget(st1, c), Pow(256, n)), lib.ctr(st1, m, n, k, iv, ZERO)),
                                 'AES encrypt (%s): the counter-mode encryption of the bytes of the plaintext' % w)
                    for st2, _ in D.call(st1, 'ae_dec', kz, c, r):
                        D.n += 1
                        e.oblige(st2, eq(e.zget(st2, r), m), 'AES decrypt(encrypt(m)) = m (%s)' % w)
                        e.oblige(st2, and_(eq(e.zget(st2, kz), k), eq(e.zget(st2, mz), m)), 'AES: the arguments are unchanged')
    D.done(st0)


TASKS['AES round trip'] = Task('AES round trip', lambda c: c22(c, False))
TASKS['AES initial counter'] = Task('AES initial counter', lambda c: c22(c, True))


def c22_any(ctl):
    """decryption of arbitrary ciphertexts is memory-safe and terminates normally"""
    D = drv(ctl, 'AES')
    e = D.e
    st0 = State()
    for lo, hi, kn in KEYS:
        for m in (S('c', 1, INF), ZERO):
            st = st0.clone()
            short(st, m)
            k = key(st, lo, hi)
            kz, c, r = put_z(e, st, k, 'key'), put_z(e, st, m, 'c'), put_z(e, st, ZERO, 'r')
            for st2, _ in D.call(st, 'ae_dec', kz, c, r):
                D.n += 1
                e.oblige(st2, and_(eq(e.zget(st2, kz), k), eq(e.zget(st2, c), m)), 'AES decrypt(any ciphertext): the arguments are unchanged')
    D.done(st0)


TASKS['AES any ciphertext'] = Task('AES any ciphertext', c22_any)


# ------------------------------------------------------------------ C23
INL = ['AES encryptCRC', 'AES decryptCRC']


def setups(ctl):
    """an arbitrary initial counter, keys and numbers"""
    D = Drv(ctl, 'AES with checksum', may_change=[r'^aes::AES::iv'], inline=INL)
    e = D.e
    iv = S('iv', 0, (1 << 128) - 1)
    out = []
    st0 = State()
    st0.assume(lt(iv, P(1 << 128)))
    p = put_string(e, st0, P(16), iv)
    for st_, _ in D.call(st0, 'ae_init', p):
        for lo, hi, kn in KEYS:
            for sym in (True, False):
                st = st_.clone()
                m = S('m', 1, INF) if sym else ZERO
                short(st, m)
                out.append((st, kn, key(st, lo, hi), m, iv))
    return D, out


def function_of(D, st, v, what, *args):
    """the value depends on nothing else (random draws, addresses, uninitialised or static data)"""
    from points import _apps
    ok = set()
    for a in args:
        ok |= set(P(a).atoms())
    bad = [a for a in _apps(eq(P(v), ZERO)) if a.kind == 'sym' and a not in ok]
    D.e.oblige(st, bconst(not bad and not st.log), '%s: a function of key, number and initial counter%s' % (what, ', not of ' + ', '.join(T.show(a.poly) for a in bad) if bad else ''))


def c23_round(ctl):
    D, sts = setups(ctl)
    e = D.e
    for st, kn, k, m, iv in sts:
        kz, mz, c, r = put_z(e, st, k, 'key'), put_z(e, st, m, 'm'), put_z(e, st, ZERO, 'c'), put_z(e, st, ZERO, 'r')
        for st1, _ in D.call(st, 'ae_enc_crc', kz, mz, c):
            v = e.zget(st1, c)
            function_of(D, st1, v, 'AES encryptCRC', k, m, iv)
            e.oblige(st1, and_(le(ONE, v), lt(v, Pow(256, T.NBytes(m) + 4).scale(2))), 'AES encryptCRC: size of the ciphertext (%s)' % kn)
            for st2, _ in D.call(st1, 'ae_dec_crc', kz, c, r):
                D.n += 1
                e.oblige(st2, eq(e.zget(st2, r), m), 'AES decryptCRC(encryptCRC(m)) = m (%s)' % kn)
                e.oblige(st2, and_(eq(e.zget(st2, kz), k), eq(e.zget(st2, mz), m)), 'AES with checksum: the arguments are unchanged')
    D.done(State())


def c23_any(ctl):
    D, sts = setups(ctl)
    e = D.e
    for st, kn, k, m, iv in sts:
        kz, c, r, r2 = put_z(e, st, k, 'key'), put_z(e, st, m, 'c'), put_z(e, st, ZERO, 'r'), put_z(e, st, ZERO, 'r2')
        for st1, _ in D.call(st, 'ae_dec', kz, c, r):
            d = e.zget(st1, r)
            for st2, _ in D.call(st1, 'ae_dec_crc', kz, c, r2):
                D.n += 1
                y = Div(d, 1 << 32)
                cs = checksum(y, T.NBytes(d) - 4)
                g = e.zget(st2, r2)
                function_of(D, st2, g, 'AES decryptCRC', k, m, iv)
                e.oblige(st2, and_(le(ZERO, g), lt(g, Pow(256, T.NBytes(m)))), 'AES decryptCRC: size of the payload (%s)' % kn)
                oks = (eq(le4(Mod(d, 1 << 32)), cs), eq(Mod(d, 1 << 32), le4(cs)))
                e.oblige(st2, or_(and_(eq(d, ZERO), eq(g, ZERO)), and_(lt(d, P(1 << 24)), eq(g, ZERO)),
                                  *[x for ok in oks for x in (and_(le(P(1 << 24), d), eq(g, y), ok), and_(le(P(1 << 24), d), eq(g, ZERO), not_(ok)))]),
                         'AES decryptCRC: the payload exactly when the decrypted value carries a valid checksum, zero otherwise (%s)' % kn)
                e.oblige(st2, and_(eq(e.zget(st2, kz), k), eq(e.zget(st2, c), m)), 'AES with checksum: the arguments are unchanged')
    D.done(State())


TASKS['AES encryptCRC'] = Task('AES encryptCRC', c23_round)
TASKS['AES decryptCRC'] = Task('AES decryptCRC', c23_any)
