"""C15, C16: private aggregation with untrusted aggregator (clients in harness/c_puda.cpp)."""
from tasks_dme import *
from gen import Gen

MAXN = 1 << 40


def new(D, st):
    o = cells(st, 8, 'o')
    return [(s2, D.ptr(s2, o)) for s2, _ in D.call(st, 'pu_new', o)]


class Setup:
    """Setup for n users by the real code: the names of everything it returned"""


def setups(D, st, n, p=None):
    e = D.e
    for st1, p in ([(st, p)] if p is not None else new(D, st)):
        a = Setup()
        a.p, a.n = p, n
        a.ek = cells(st1, 24, 'ek')
        a.sk = cells(st1, 24, 'sk')
        a.vk = cells(st1, D.one(st1, 'pu_size_vk')[1].const(), 'vk')
        st1, _ = D.one(st1, 'pu_empty', a.ek)
        st1, _ = D.one(st1, 'pu_empty_sk', a.sk)
        st1, _ = D.one(st1, 'pu_default_vk', a.vk)
        a.ak = put_f(e, st1, 'Field_secp256r1_n', ZERO, 'ak')
        for st2, _ in D.call(st1, 'pu_setup', p, n, a.ek, a.sk, a.ak, a.vk):
            yield st2, a


def get(D, st, f, *a):
    return D.one(st, f, *a)[1]


def atom(p):
    return next(iter(p.atoms()))


def family(D, st, a):
    """discrete logarithm of the hash, ek_i, tk_i as functions of i, what a stands for; i"""
    e = D.e
    i = S('i', 0, MAXN)
    x = st.clone()
    x.assume(lt(i, a.n))
    h = D.pt(st, get(D, st, 'pu_hash', a.p), 'the hash point')
    ek = D.fld(x, get(D, x, 'pu_ek', a.ek, i), 'an encryption key')
    tk = D.fld(x, get(D, x, 'pu_sk_tk', a.sk, i), 'a tag key')
    av = e.zget(x, get(D, x, 'pu_sk_a', a.sk, i))
    return h, ek, tk, av, i


def setup_task(ctl, again):
    D = Drv(ctl, 'Setup')
    e = D.e
    st0 = State()
    n = S('n', 0, MAXN)
    for st1, p in new(D, st0):
        for st, a in setups(D, st1.clone(), n, p):
            if again:
                # from every state an earlier set-up leaves behind
                g = Gen(e, 'Setup of an object used before')
                y = g.generalise(st1, st, [p])
                for st, a in setups(D, y, S('n2', 0, MAXN), p):
                    D.n += 1
                    setup_check(D, st, a)
                    g.conform(st)
            else:
                D.n += 1
                setup_check(D, st, a)
    D.done(st0)


def setup_check(D, st, a):
    e, n = D.e, a.n
    e.oblige(st, eq(get(D, st, 'pu_nek', a.ek), n), 'Setup: one encryption key per user')
    e.oblige(st, eq(get(D, st, 'pu_nsk', a.sk), n), 'Setup: one signing key per user')
    D.want_pt(st, get(D, st, 'pu_g1', a.p), ONE, 'first generator')
    D.want_pt(st, get(D, st, 'pu_g2', a.p), ONE, 'second generator')
    h, ek, tk, av, i = family(D, st, a)
    if h is None or ek is None or tk is None:
        return
    var = atom(i)
    ak = D.fld(st, a.ak, 'aggregator key')
    if ak is not None:
        e.oblige(st, eq(Mod(ak + Sum(ek, n, var), N), ZERO), 'Setup: the aggregator key and all encryption keys sum to zero')
    e.oblige(st, bconst(var not in fv_of(av)), 'Setup: all users share one a')
    D.want_pt(st, get(D, st, 'pu_vk1', a.vk), Sum(tk, n, var), 'first verification key is g2 times the sum of the tag keys')
    D.want_pt(st, get(D, st, 'pu_vk2', a.vk), av, 'second verification key is g2 times a')


def fv_of(p):
    r = set()
    for x in p.atoms():
        r |= fv(x)
    return r


TASKS['PUDA Setup'] = Task('PUDA Setup', lambda ctl: setup_task(ctl, False))
TASKS['PUDA Setup again'] = Task('PUDA Setup again', lambda ctl: setup_task(ctl, True))


def start(D, n):
    st0 = State()
    for st, a in setups(D, st0, n):
        h = D.pt(st, get(D, st, 'pu_hash', a.p), 'the hash point')
        if h is not None:
            yield st, a, h


def ints(e):
    m = S('m', 0, 65535)
    t = S('t', 0, (1 << 32) - 1)
    ts = ite(lt(t, P(1 << 31)), t, t - (1 << 32))
    return m, t, ts


def enc_task(ctl, tag):
    D = Drv(ctl, 'Tag' if tag else 'Enc')
    e = D.e
    for st, a, h in start(D, S('n', 0, MAXN)):
        m, t, ts = ints(e)
        out, _ = D.newpt(st, 'out', 0, NULL)
        k = S('key', 0, N - 1)
        if tag:
            av = S('a', 0, N - 1)
            sk = cells(st, D.one(st, 'pu_size_sk')[1].const(), 'sk')
            st, _ = D.one(st, 'pu_mk_sk', put_z(e, st, av, 'a'), put_f(e, st, 'Field_secp256r1_n', k, 'tk'), sk)
            w = k * h * ts + av * m
        else:
            sk = put_f(e, st, 'Field_secp256r1_n', k, 'ek')
            w = k * h * ts + m
        for st1, _ in D.call(st, 'pu_tag' if tag else 'pu_enc', a.p, sk, m, t, out):
            D.n += 1
            D.want_pt(st1, out, w, 'hash * t * key + %smessage' % ('a * ' if tag else ''))
    D.done(State())


TASKS['PUDA Enc'] = Task('PUDA Enc', lambda ctl: enc_task(ctl, False))
TASKS['PUDA Tag'] = Task('PUDA Tag', lambda ctl: enc_task(ctl, True))


def points(D, st, n, nm):
    """a vector of n arbitrary points"""
    import lib
    e = D.e
    cv = put_curve(e, st, CI, 'curve of the users')
    v = cells(st, 24, nm)
    bv = T.bvar(0)
    f = App(nm, bv.poly, lo=0, hi=N - 1)
    lib.vec_new(e, st, v, 80, 'ecc::Point<Secp256r1>', n, [Seg(ZERO, n, pt_cells(CI, f, cv), bv)])
    return v, Sum(f, n, bv)


def agg_task(ctl):
    D = Drv(ctl, 'Agg')
    e = D.e
    for st, a, h in start(D, S('n0', 0, MAXN)):
        m, t, ts = ints(e)
        n = S('n', 0, MAXN)
        k = S('key', 0, N - 1)
        c, sc = points(D, st, n, 'c')
        g, sg = points(D, st, n, 'tag')
        ak = put_f(e, st, 'Field_secp256r1_n', k, 'ak')
        tag, _ = D.newpt(st, 'aggregated tag', 0, NULL)
        # m denotes the total
        st.assume(eq(Mod(sc + h * ts * k - m, N), ZERO))
        e.ghosts = (m,)
        for st1, r in D.call(st, 'pu_agg', a.p, ak, c, g, t, tag):
            D.n += 1
            e.oblige(st1, eq(Mod(r, 65536), m), 'Agg: returns the sum (any ciphertexts whose total is a 16-bit number)')
            D.want_pt(st1, tag, sg, 'the tag is the sum of the tags')
    D.done(State())


TASKS['PUDA Agg'] = Task('PUDA Agg', agg_task)


def full_task(ctl):
    D = Drv(ctl, 'PUDA')
    e = D.e
    n = S('n', 0, MAXN)
    for st, a, h in start(D, n):
        _, t, ts = ints(e)
        bv = T.bvar(0)
        f = App('m', bv.poly, lo=0, hi=65535)
        _, ek, tk, av, i = family(D, st, a)
        var = atom(i)
        msgs = cells(st, 24, 'messages')
        import lib
        lib.vec_new(e, st, msgs, 2, 'unsigned short', n, [Seg(ZERO, n, {0: (2, f)}, bv)])
        total = Sum(f, n, bv)
        st.assume(le(total, P(65535)))
        e.ghosts = (total,)
        cs, ts_ = cells(st, 24, 'ciphertexts'), cells(st, 24, 'tags')
        st, _ = D.one(st, 'pu_empty_pt', cs)
        st, _ = D.one(st, 'pu_empty_pt', ts_)
        tag, _ = D.newpt(st, 'aggregated tag', 0, NULL)
        for st1, _ in D.call(st, 'pu_encall', a.p, n, a.ek, msgs, t, cs):
            for st2, _ in D.call(st1, 'pu_tagall', a.p, n, a.sk, msgs, t, ts_):
                for st3, r in D.call(st2, 'pu_agg', a.p, a.ak, cs, ts_, t, tag):
                    D.n += 1
                    e.oblige(st3, eq(Mod(r, 65536), total), 'PUDA: aggregation returns the exact sum')
                    D.want_pt(st3, tag, h * ts * Sum(tk, n, var) + av * total, 'tag = t*hash*(sum of tag keys) + a*(sum of messages)')
    D.done(State())


def verify_task(ctl):
    D = Drv(ctl, 'Verify')
    e = D.e
    for st, a, h in start(D, S('n', 0, MAXN)):
        m, t, ts = ints(e)
        g, d = D.newpt(st, 'tag')
        for st1, r in D.call(st, 'pu_verify', a.p, a.vk, m, g, t):
            D.n += 1
            s = S('sum of the messages', 0, 65535)
            _, ek, tk, av, i = family(D, st, a)
            x = st1.clone()
            x.assume(eq(Mod(d - h * ts * Sum(tk, a.n, atom(i)) - av * s, N), ZERO))
            e.oblige(x, or_(not_(eq(s, m)), not_(eq(r, ZERO))), 'Verify: accepts the honest sum and tag')
            e.oblige(x, or_(eq(s, m), eq(av, ZERO), eq(r, ZERO)), 'Verify: rejects every other sum')
    D.done(State())


TASKS['PUDA Verify'] = Task('PUDA Verify', verify_task)
TASKS['PUDA Agg(Enc, Tag)'] = Task('PUDA Agg(Enc, Tag)', full_task)
