"""C07-C12: dual-mode encryption over the client functions of harness/c_dme.cpp, c_copy.cpp."""
from tasks import *

CI = SECP
N = CI.n


class Drv:
    """drives client functions; every step yields the successor states"""

    def __init__(s, ctl, what, **k):
        s.ctl, s.what = ctl, what
        s.e = ctl.engine(**k)
        s.e.alias_curves = True
        s.n = 0

    def call(s, st, fn, *args, what=None):
        return rets(s.e.run_func(st, s.ctl.find(s.e, fn), list(args)), s.e, st, what or s.what)

    def one(s, st, fn, *args):
        """a call with a single outcome; the successor state"""
        r = s.call(st, fn, *args)
        if len(r) != 1:
            raise Unsupported('%s: %d outcomes' % (fn, len(r)))
        return r[0]

    def mk(s, st, kind):
        """storage for a value of the given kind, default-constructed: (state, pointer)"""
        n = s.one(st, 'ob_sizeof_' + kind)[1].const()
        p = cells(st, n, kind)
        return s.one(st, 'ob_default_' + kind, p)[0], p

    def ptr(s, st, cell):
        return s.e.load(st, cell, 'p')

    def pt(s, st, p, what):
        """discrete logarithm of the point at p"""
        t = pt_read(s.e, st, p)
        if t is not None and t[0] is CI and t[2].obj is not None:
            o = st.mem.get(t[2].obj)
            if o is None or o.al and not CT.curves_intact(s.e, st, o):
                s.e.oblige(st, or_(t[2].null, eq(Mod(t[1], N), ZERO)), '%s: %s: refers to a living curve object' % (s.what, what))
        if t is None or t[0] is not CI:
            s.e.oblige(st, FALSE, '%s: %s: is a point of the curve (%s)' % (s.what, what, pt_show(s.e, st, p)))
            return None
        return t[1]

    def want_pt(s, st, p, d, what):
        v = s.pt(st, p, what)
        if v is not None:
            s.e.oblige(st, eq(Mod(v, N), Mod(P(d), N)), '%s: %s' % (s.what, what))

    def fld(s, st, p, what):
        f = field_at(s.e, st, p)
        if f is None:
            s.e.oblige(st, FALSE, '%s: %s: no field element' % (s.what, what))
            return None
        s.e.oblige(st, eq(f[1], P(N)), '%s: %s: modulus' % (s.what, what))
        s.e.oblige(st, and_(le(ZERO, f[0]), lt(f[0], P(N))), '%s: %s: in [0,n)' % (s.what, what))
        return f[0]

    def newpt(s, st, name, d=None, curve=None, nz=False):
        """a point with an arbitrary discrete logarithm, referring to `curve`"""
        d = S(name, 1 if nz else 0, N - 1) if d is None else P(d)
        if curve is None:
            curve = put_curve(s.e, st, CI, 'curve of ' + name)
        return put_pt(s.e, st, CI, d, maybe_null(s.e, st, curve, d), name), d

    def done(s, st):
        if not s.n:
            s.e.oblige(st, FALSE, s.what + ': returns')


def put_crs(D, st, ds=None):
    """a reference string with four arbitrary points, of another party's curve object"""
    st, p = D.mk(st, 'crs')
    cv = put_curve(D.e, st, CI, 'peer curve')
    pts = [D.newpt(st, nm, None if ds is None else ds[i], cv) for i, nm in enumerate(('dg0', 'dg1', 'dh0', 'dh1'))]
    st, _ = D.one(st, 'ob_make_crs', *[q for q, d in pts], p)
    return st, p, [d for q, d in pts]


SETUPS = ('messy mode', 'decryption mode', 'default', 'received reference string', 'reference string of another object')


def setup(D, st, how):
    """-> list of (state, DME object)"""
    out = cells(st, 8, 'out')
    if how in ('messy mode', 'decryption mode'):
        r = D.call(st, 'ob_new_mode', P(0 if how[0] == 'm' else 1), out)
    elif how == 'default':
        r = D.call(st, 'ob_new_default', out)
    elif how == 'received reference string':
        st, p, ds = put_crs(D, st)
        r = D.call(st, 'ob_new_crs', p, out)
    else:
        res = []
        for st1, _ in D.call(st, 'ob_new_mode', P(0), out):
            o = D.ptr(st1, out)
            for st2, _ in D.call(st1, 'ob_new_other', o, out):
                n = D.ptr(st2, out)
                for st3, _ in D.call(st2, 'ob_del', o):
                    res.append((st3, n))
        return res
    return [(s2, D.ptr(s2, out)) for s2, _ in r]


def crs_of(D, st, obj):
    """discrete logs of g0, g1, h0, h1"""
    st, c = D.mk(st, 'crs')
    st, _ = D.one(st, 'ob_crs', obj, c)
    qs = [D.newpt(st, 'q%d' % i, 0, NULL)[0] for i in range(4)]
    st, _ = D.one(st, 'ob_get_crs', c, *qs)
    r = [D.pt(st, q, 'component of the reference string') for q in qs]
    return st, r


def keys(D, st, obj, b):
    st, pk = D.mk(st, 'pkey')
    sk = put_f(D.e, st, 'Field_secp256r1_n', ZERO, 'sk')
    return [(s2, pk, sk) for s2, _ in D.call(st, 'ob_keygen', obj, P(b), pk, sk)]


def enc(D, st, obj, pk, b, m, int_=False):
    st, c = D.mk(st, 'ctxt')
    return [(s2, c) for s2, _ in D.call(st, 'ob_enc_int' if int_ else 'ob_enc', obj, pk, P(b), m, c)]


def dec(D, st, obj, sk, c):
    r = D.newpt(st, 'result', 0, NULL)[0]
    return [(s2, r) for s2, _ in D.call(st, 'ob_dec', obj, sk, c, r)]


# ------------------------------------------------------------------ C08
def c08_points(ctl, how, b):
    D = Drv(ctl, 'Dec(Enc(m)) [%s, branch %d]' % (how, b))
    e = D.e
    st0 = State()
    for st, obj in setup(D, st0, how):
        for st1, pk, sk in keys(D, st, obj, b):
            m, d = D.newpt(st1, 'm')
            for st2, c in enc(D, st1, obj, pk, b, m):
                D.want_pt(st2, m, d, 'message unchanged')
                for st3, r in dec(D, st2, obj, sk, c):
                    D.n += 1
                    D.want_pt(st3, r, d, 'decryption returns the message')
    D.done(st0)


for _h in SETUPS:
    for _b in (0, 1):
        def _f(ctl, h=_h, b=_b):
            c08_points(ctl, h, b)
        _n = 'Dec(Enc(m)) [%s, branch %d]' % (_h, _b)
        TASKS[_n] = Task(_n, _f)


# ------------------------------------------------------------------ C07
SHIFT = 10
ASSUME_ENC = 'one of the 2^10 candidate abscissas of every encoded message is the abscissa of a point'


def search_ends(D, st, *ds):
    """the documented assumption: encode's search ends within the padding range"""
    from points import _apps
    n = 1 << SHIFT
    for d in ds:
        for a in _apps(eq(P(d), ZERO)):
            if a.kind == 'sym' and str(a.args[0]).startswith('k:'):
                # candidates rejected before the loop (its first iterations taken out) count as well
                g, peeled = next((x for x in _apps(eq(P(d), ZERO)) if x.kind == 'app' and x.args[0] == CI.EP), None), 0
                if g is not None:
                    while eq(App(CI.EP, simp_poly(subst(g.args[1], {a: P(-1 - peeled)}), st.ctx)), ZERO).id in st.ctx.ids:
                        peeled += 1
                st.assume(lt(a.poly, P(n - peeled)))


def c07_encode(ctl):
    D = Drv(ctl, 'decode(encode(m))')
    e = D.e
    st0 = State()
    for st, obj in setup(D, st0, 'default'):
        m = S('m', 0, (CI.p >> SHIFT) - 1)
        mz = put_z(e, st, m, 'm')
        r = D.newpt(st, 'encoded', 0, NULL)[0]
        out = put_z(e, st, ZERO, 'out')
        for st1, _ in D.call(st, 'ob_encode', obj, mz, r):
            d = D.pt(st1, r, 'encoding')
            if d is None:
                continue
            search_ends(D, st1, d)
            e.oblige(st1, not_(eq(Mod(d, N), ZERO)), D.what + ': the encoding is finite')
            for st2, _ in D.call(st1, 'ob_decode', obj, r, out):
                D.n += 1
                e.oblige(st2, eq(e.zget(st2, out), m), D.what + ': decoding returns the message')
                e.oblige(st2, eq(e.zget(st2, mz), m), D.what + ': message unchanged')
    D.done(st0)


def encode_contract(ctl):
    """the contract Encode (contracts.py)"""
    D = Drv(ctl, 'DME encode', inline=['DME encode'])
    e = D.e
    st0 = State()
    for how in SETUPS:
        for st, obj in setup(D, st0, how):
            m = S('m', 0, (CI.p >> SHIFT) - 1)
            mz = put_z(e, st, m, 'm')
            r = cells(st, PT_SIZE, 'result')
            (st, cv), = D.call(st, 'ob_dme_curve', obj)
            pre = dict(st.mem)
            for st1, _ in rets(e.run_func(st, ctl.find(e, CT.Encode.rx), [r, obj, mz]), e, st, D.what):
                D.n += 1
                d = D.pt(st1, r, 'encoding')
                if d is None:
                    continue
                search_ends(D, st1, d)
                e.oblige(st1, not_(eq(Mod(d, N), ZERO)), D.what + ': finite')
                e.oblige(st1, eq(Div(CI.x(d), 1 << SHIFT), m), D.what + ': the abscissa is the message followed by the padding')
                e.oblige(st1, bconst(CT.same_ptr(pt_read(e, st1, r)[2], cv)), D.what + ": on the object's curve")
                for q in (obj, mz, cv):
                    cmp_obj(e, st1, q.obj, pre[q.obj], D.what + ': operands unchanged')
    D.done(st0)


TASKS['DME encode'] = Task('DME encode', encode_contract)
TASKS['decode(encode(m))'] = Task('decode(encode(m))', c07_encode)


def c07_decode(ctl):
    D = Drv(ctl, 'decode depends on the abscissa only')
    e = D.e
    st0 = State()
    for st, obj in setup(D, st0, 'default'):
        p, d = D.newpt(st, 'd', nz=True)
        q, _ = D.newpt(st, 'q', Mod(-d, N))
        o1, o2 = put_z(e, st, ZERO, 'o1'), put_z(e, st, ZERO, 'o2')
        for st1, _ in D.call(st, 'ob_decode', obj, p, o1):
            for st2, _ in D.call(st1, 'ob_decode', obj, q, o2):
                D.n += 1
                e.oblige(st2, eq(e.zget(st2, o1), e.zget(st2, o2)), D.what)
                D.want_pt(st2, p, d, 'point unchanged')
    D.done(st0)


TASKS['decode depends on the abscissa only'] = Task('decode depends on the abscissa only', c07_decode)


# ------------------------------------------------------------------ C08 integers
def c08_ints(ctl, how, b):
    D = Drv(ctl, 'DecDecode(Enc(integer)) [%s, branch %d]' % (how, b))
    e = D.e
    st0 = State()
    for st, obj in setup(D, st0, how):
        for st1, pk, sk in keys(D, st, obj, b):
            m = S('m', 0, (CI.p >> SHIFT) - 1)
            mz = put_z(e, st1, m, 'm')
            out = put_z(e, st1, ZERO, 'out')
            for st2, c in enc(D, st1, obj, pk, b, mz, True):
                st3, q = get_ctxt(D, st2, c)
                if q:
                    search_ends(D, st3, q[1])
                for st4, _ in D.call(st3, 'ob_decdecode', obj, sk, c, out):
                    D.n += 1
                    e.oblige(st4, eq(e.zget(st4, out), m), D.what + ': returns the integer')
                    e.oblige(st4, eq(e.zget(st4, mz), m), D.what + ': message unchanged')
    D.done(st0)


def get_parts(D, st, kind, p, n):
    qs = [D.newpt(st, 'part%d' % i, 0, NULL)[0] for i in range(n)]
    st, _ = D.one(st, 'ob_get_' + kind, p, *qs)
    r = [D.pt(st, q, 'component %d of the %s' % (i, kind)) for i, q in enumerate(qs)]
    return st, (None if any(x is None for x in r) else r)


def get_ctxt(D, st, c):
    return get_parts(D, st, 'ctxt', c, 2)


def get_pk(D, st, c):
    return get_parts(D, st, 'pkey', c, 2)


for _h in SETUPS:
    for _b in (0, 1):
        def _f(ctl, h=_h, b=_b):
            c08_ints(ctl, h, b)
        _n = 'DecDecode(Enc(integer)) [%s, branch %d]' % (_h, _b)
        TASKS[_n] = Task(_n, _f)


# ------------------------------------------------------------------ C09
def det(g, h, a, b):
    """the branch with reference points g, h is messy for the public key (a, b) iff this is not zero"""
    return Mod(g * b - h * a, N)


def c09_find(ctl, b):
    """the trapdoor test on a key generated for branch b names the other branch"""
    D = Drv(ctl, 'FindMessy(KeyGen(%d))' % b)
    e = D.e
    st0 = State()
    for st, obj in setup(D, st0, 'messy mode'):
        st, crs = crs_of(D, st, obj)
        for st1, pk, sk in keys(D, st, obj, b):
            k = D.fld(st1, sk, 'secret key')
            st1.assume(not_(eq(k, ZERO)), not_(eq(Mod(crs[0], N), ZERO)), not_(eq(Mod(crs[1], N), ZERO)),
                       not_(eq(det(crs[0], crs[2], crs[1], crs[3]), ZERO)))
            for st2, v in D.call(st1, 'ob_findmessy', obj, pk):
                D.n += 1
                cmp_val(e, st2, v, P(1 - b), D.what + ': names the other branch')
    D.done(st0)


def c09_any(ctl):
    """for every public key the named branch is messy"""
    D = Drv(ctl, 'FindMessy names a messy branch for every public key')
    e = D.e
    st0 = State()
    for st, obj in setup(D, st0, 'messy mode'):
        st, crs = crs_of(D, st, obj)
        st.assume(not_(eq(Mod(crs[0], N), ZERO)), not_(eq(Mod(crs[1], N), ZERO)),
                  not_(eq(det(crs[0], crs[2], crs[1], crs[3]), ZERO)))
        cv = put_curve(e, st, CI)
        g, a = D.newpt(st, 'pkg', curve=cv, nz=True)
        h, b = D.newpt(st, 'pkh', curve=cv)
        st, pk = D.mk(st, 'pkey')
        st, _ = D.one(st, 'ob_make_pkey', g, h, pk)
        for st1, v in D.call(st, 'ob_findmessy', obj, pk):
            D.n += 1
            vb = v if isinstance(v, Bool) else not_(eq(v, ZERO))
            if isinstance(v, Poly):
                e.oblige(st1, or_(eq(v, ZERO), eq(v, ONE)), D.what + ': a branch')
            e.oblige(st1, or_(vb, not_(eq(det(crs[0], crs[2], a, b), ZERO))), D.what + ': branch 0')
            e.oblige(st1, or_(not_(vb), not_(eq(det(crs[1], crs[3], a, b), ZERO))), D.what + ': branch 1')
    D.done(st0)


def c09_hide(ctl, b):
    """for a messy branch, encryption randomness is in bijection with ciphertexts, for every message"""
    D = Drv(ctl, 'ciphertexts of a messy branch %d hide the message' % b)
    e = D.e
    st0 = State()
    for st, obj in setup(D, st0, 'messy mode'):
        st, crs = crs_of(D, st, obj)
        G, H = crs[b], crs[2 + b]
        cv = put_curve(e, st, CI)
        g, pa = D.newpt(st, 'pkg', curve=cv)
        h, pb = D.newpt(st, 'pkh', curve=cv)
        st, pk = D.mk(st, 'pkey')
        st, _ = D.one(st, 'ob_make_pkey', g, h, pk)
        m, d = D.newpt(st, 'm', curve=cv)
        k0 = len(st.log)
        for st1, c in enc(D, st, obj, pk, b, m):
            st1, uv = get_ctxt(D, st1, c)
            if not uv:
                continue
            u, v = uv
            dr = [x for x in st1.log[k0:] if x[0] not in ('each', 'shuffle')]
            full = [x for x in dr if x[2] == 0 and x[3] == N - 1]
            e.oblige(st1, bconst(len(dr) == 2 and len(full) == 2), D.what + ': two draws from [0,n)')
            if len(full) != 2:
                continue
            s, t = [x[1] for x in full]
            dm = d.atom()

            def at(x, sv, tv, mv):
                return Mod(subst(x, {s.atom(): P(sv), t.atom(): P(tv), dm: P(mv)}), N)
            u0, v0 = at(u, 0, 0, d), at(v, 0, 0, d)
            us, ut = Mod(at(u, 1, 0, d) - u0, N), Mod(at(u, 0, 1, d) - u0, N)
            vs, vt = Mod(at(v, 1, 0, d) - v0, N), Mod(at(v, 0, 1, d) - v0, N)
            D.n += 1
            for x, x0, xs, xt, nm in ((u, u0, us, ut, 'u'), (v, v0, vs, vt, 'v')):
                e.oblige(st1, eq(Mod(x, N), Mod(x0 + xs * s + xt * t, N)), D.what + ': %s is affine in the randomness' % nm)
            dd = Mod(us * vt - ut * vs, N)
            dt = det(G, H, pa, pb)
            e.oblige(st1, or_(eq(dd, dt), eq(dd, Mod(-dt, N))), D.what + ': determinant vanishes only if the branch is not messy')
            # the unique other randomness for another message m2
            st2 = st1.clone()
            st2.assume(not_(eq(dd, ZERO)))
            m2 = S('m2', 0, N - 1)
            iv = Inv(dd, N)
            dv = Mod(v - at(v, s, t, m2), N)
            s2, t2 = Mod(s - ut * dv * iv, N), Mod(t + us * dv * iv, N)
            e.oblige(st2, eq(at(u, s2, t2, m2), Mod(u, N)), D.what + ': other randomness gives the same u')
            e.oblige(st2, eq(at(v, s2, t2, m2), Mod(v, N)), D.what + ': other randomness gives the same v')
            # uniqueness: the determinant times a difference of randomness is a combination of differences of ciphertexts
            s3, t3 = S('s3', 0, N - 1), S('t3', 0, N - 1)
            du, dv = u - at(u, s3, t3, d), v - at(v, s3, t3, d)
            e.oblige(st2, eq(Mod(dd * (s - s3), N), Mod(vt * du - ut * dv, N)), D.what + ': uniqueness of the first value')
            e.oblige(st2, eq(Mod(dd * (t - t3), N), Mod(us * dv - vs * du, N)), D.what + ': uniqueness of the second value')
    D.done(st0)


for _b in (0, 1):
    def _f(ctl, b=_b):
        c09_find(ctl, b)
    TASKS['FindMessy(KeyGen(%d))' % _b] = Task('FindMessy(KeyGen(%d))' % _b, _f)

    def _f(ctl, b=_b):
        c09_hide(ctl, b)
    TASKS['messy branch %d hides' % _b] = Task('messy branch %d hides' % _b, _f)
TASKS['FindMessy(any key)'] = Task('FindMessy(any key)', c09_any)


# ------------------------------------------------------------------ C10
def c10_trap(ctl, b):
    D = Drv(ctl, 'TrapKeyGen secret key %d opens branch %d' % (b, b))
    e = D.e
    st0 = State()
    for st, obj in setup(D, st0, 'decryption mode'):
        st, crs = crs_of(D, st, obj)
        st.assume(not_(eq(Mod(crs[0], N), ZERO)), not_(eq(Mod(crs[1], N), ZERO)))
        st, pk = D.mk(st, 'pkey')
        sk = [put_f(e, st, 'Field_secp256r1_n', ZERO, 'sk%d' % i) for i in (0, 1)]
        m, d = D.newpt(st, 'm')
        for st1, _ in D.call(st, 'ob_trapkeygen', obj, pk, *sk):
            for st2, c in enc(D, st1, obj, pk, b, m):
                for st3, r in dec(D, st2, obj, sk[b], c):
                    D.n += 1
                    D.want_pt(st3, r, d, 'decryption returns the message')
    D.done(st0)


def c10_both(ctl, b):
    D = Drv(ctl, 'key of branch %d is a key of branch %d' % (b, 1 - b))
    e = D.e
    st0 = State()
    for st, obj in setup(D, st0, 'decryption mode'):
        st, crs = crs_of(D, st, obj)
        st.assume(not_(eq(Mod(crs[0], N), ZERO)), not_(eq(Mod(crs[1], N), ZERO)))
        for st1, pk, sk in keys(D, st, obj, b):
            k = D.fld(st1, sk, 'secret key')
            st1, q = get_pk(D, st1, pk)
            if not q:
                continue
            D.n += 1
            other = Mod(k * crs[b] * Inv(Mod(crs[1 - b], N), N), N)
            for i, nm in ((0, 'g'), (1, 'h')):
                e.oblige(st1, eq(Mod(q[i], N), Mod(crs[2 * i + b] * k, N)), D.what + ': %s is the secret key times the reference point' % nm)
                e.oblige(st1, eq(Mod(q[i], N), Mod(crs[2 * i + 1 - b] * other, N)), D.what + ': %s is the other secret key times the other reference point' % nm)
    D.done(st0)


for _b in (0, 1):
    def _f(ctl, b=_b):
        c10_trap(ctl, b)
    TASKS['TrapKeyGen branch %d' % _b] = Task('TrapKeyGen branch %d' % _b, _f)

    def _f(ctl, b=_b):
        c10_both(ctl, b)
    TASKS['key of branch %d for the other' % _b] = Task('key of branch %d for the other' % _b, _f)


# ------------------------------------------------------------------ C11
def c11_eval(ctl):
    """for all ciphertexts and secret keys: Dec(Eval(a, b)) = Dec(a) + Dec(b)"""
    D = Drv(ctl, 'Dec(Eval(a, b)) = Dec(a) + Dec(b)')
    e = D.e
    st0 = State()
    st, crs, _ = put_crs(D, st0.clone())
    out = cells(st, 8, 'out')
    for st, _ in D.call(st, 'ob_new_dmhe', crs, out):
        obj = D.ptr(st, out)
        cv = put_curve(e, st, CI)
        cs, vals = [], []
        for i in 'ab':
            pu, u = D.newpt(st, 'u' + i, curve=cv)
            pv, v = D.newpt(st, 'v' + i, curve=cv)
            st, c = D.mk(st, 'ctxt')
            st, _ = D.one(st, 'ob_make_ctxt', pu, pv, c)
            cs.append(c)
            vals += [u, v]
        x = S('sk', 0, N - 1)
        sk = put_f(e, st, 'Field_secp256r1_n', x, 'sk')
        for alias in (False, True):
            st1 = st.clone()
            st1, o = D.mk(st1, 'ctxt')
            c2 = cs[0] if alias else cs[1]
            for st2, _ in D.call(st1, 'ob_eval', obj, cs[0], c2, o):
                ds = []
                todo = [(st2, ())]
                for c in (o, cs[0], c2):
                    todo = [(s3, k + (r, )) for s1, k in todo for s3, r in dec(D, s1, obj, sk, c)]
                for s3, k in todo:
                    ds = [D.pt(s3, q, 'decryption') for q in k]
                    if any(q is None for q in ds):
                        continue
                    D.n += 1
                    e.oblige(s3, eq(Mod(ds[0], N), Mod(ds[1] + ds[2], N)), D.what + (' (one ciphertext twice)' if alias else ''))
                    s4, q = get_ctxt(D, s3, cs[0])
                    if q:
                        e.oblige(s4, and_(eq(q[0], vals[0]), eq(q[1], vals[1])), D.what + ': operand unchanged')
    D.done(st0)


def c11_fresh(ctl, how, b):
    """two fresh ciphertexts of one key"""
    D = Drv(ctl, 'Dec(Eval(Enc(m1), Enc(m2))) = m1 + m2 [%s, branch %d]' % (how, b))
    e = D.e
    st0 = State()
    out = None
    st = st0.clone()
    out = cells(st, 8, 'out')
    if how == 'received':
        st, crs, _ = put_crs(D, st)
        r = D.call(st, 'ob_new_dmhe', crs, out)
    else:
        r = D.call(st, 'ob_new_dmhe_mode', P(0 if how == 'messy' else 1), out)
    for st, _ in r:
        obj = D.ptr(st, out)
        for st1, pk, sk in keys(D, st, obj, b):
            cv = put_curve(e, st1, CI)
            m1, d1 = D.newpt(st1, 'm1', curve=cv)
            m2, d2 = D.newpt(st1, 'm2', curve=cv)
            for st2, ca in enc(D, st1, obj, pk, b, m1):
                for st3, cb in enc(D, st2, obj, pk, b, m2):
                    st4, o = D.mk(st3, 'ctxt')
                    for st5, _ in D.call(st4, 'ob_eval', obj, ca, cb, o):
                        for st6, r in dec(D, st5, obj, sk, o):
                            D.n += 1
                            D.want_pt(st6, r, d1 + d2, 'sum of the messages')
    D.done(st0)


TASKS['Dec(Eval)'] = Task('Dec(Eval)', c11_eval)
for _h in ('messy', 'decryption', 'received'):
    for _b in (0, 1):
        def _f(ctl, h=_h, b=_b):
            c11_fresh(ctl, h, b)
        TASKS['Dec(Eval(Enc, Enc)) %s %d' % (_h, _b)] = Task('Dec(Eval(Enc, Enc)) %s %d' % (_h, _b), _f)
