"""C13, C14: oblivious transfer and distributed oblivious transfer (clients in harness/c_ot.cpp)."""
from tasks_dme import *
from gen import Gen, GenVec


def parties(D, st0, r='ob_new_otrecv', s='ob_new_otsndr'):
    st, crs, _ = put_crs(D, st0.clone())
    o1, o2 = cells(st, 8, 'o1'), cells(st, 8, 'o2')
    out = []
    for st1, _ in D.call(st, r, crs, o1):
        for st2, _ in D.call(st1, s, crs, o2):
            out.append((st2, D.ptr(st2, o1), D.ptr(st2, o2)))
    return out


def c13(ctl, b, ints):
    """from new parties, and again from every state a transfer leaves behind"""
    D = Drv(ctl, 'transfer of %s, choice %d' % ('integers' if ints else 'points', b))
    e = D.e
    st0 = State()

    def transfer(st, r, s, b, tag):
        if ints:
            d0, d1 = (S('m%d%s' % (i, tag), 0, (CI.p >> SHIFT) - 1) for i in (0, 1))
            m0, m1, out = put_z(e, st, d0, 'm0'), put_z(e, st, d1, 'm1'), put_z(e, st, ZERO, 'out')
        else:
            m0, d0 = D.newpt(st, 'm0' + tag)
            m1, d1 = D.newpt(st, 'm1' + tag)
            out, _ = D.newpt(st, 'out', 0, NULL)
        for st1, _ in steps(st, r, s, b, m0, m1, out):
            for q, d, nm in ((out, (d0, d1)[b], 'the receiver obtains the selected message'), (m0, d0, 'message 0 unchanged'),
                             (m1, d1, 'message 1 unchanged')):
                if ints:
                    e.oblige(st1, eq(e.zget(st1, q), d), '%s%s: %s' % (D.what, tag, nm))
                else:
                    D.want_pt(st1, q, d, tag + nm)
            for st2, v in D.call(st1.clone(), 'ob_ot_branch', r):
                cmp_val(e, st2, v, P(b), '%s%s: the receiver reports its choice' % (D.what, tag))
            yield st1

    def steps(st, r, s, b, m0, m1, out):
        st, pk = D.mk(st, 'pkey')
        for st1, _ in D.call(st, 'ob_ot_select', r, P(b), pk):
            st1, c0 = D.mk(st1, 'ctxt')
            st1, c1 = D.mk(st1, 'ctxt')
            for st2, _ in D.call(st1, 'ob_ot_enc_int' if ints else 'ob_ot_enc', s, pk, m0, m1, c0, c1):
                if ints:
                    for c in (c0, c1):
                        st2, q = get_ctxt(D, st2, c)
                        if q:
                            search_ends(D, st2, q[1])
                yield from D.call(st2, 'ob_ot_dec_int' if ints else 'ob_ot_dec', r, c0, c1, out)
    for st, r, s in parties(D, st0):
        for st1 in transfer(st, r, s, b, ''):
            D.n += 1
            for prev in (0, 1):
                # the parties after a transfer with any choice
                st2 = [x for x in transfer(st.clone(), r, s, prev, ' (earlier)')]
                for x in st2:
                    g = Gen(e, D.what + ', parties used before')
                    y = g.generalise(st, x, [r, s])
                    for z in transfer(y, r, s, b, ' (parties used before)'):
                        D.n += 1
                        if prev == b:
                            g.conform(z)
    D.done(st0)


for _b in (0, 1):
    for _i in (False, True):
        def _f(ctl, b=_b, i=_i):
            c13(ctl, b, i)
        _n = 'OT %s %d' % ('integers' if _i else 'points', _b)
        TASKS[_n] = Task(_n, _f)


# ------------------------------------------------------------------ C14
def gen_ctxt(i, j, tag, cv):
    """cells of an arbitrary ciphertext: element i, branch j of a family"""
    r = {}
    for off, nm in ((0, 'u'), (80, 'mv')):
        d = App('%s%d_%s' % (nm, j, tag), i, lo=0, hi=N - 1)
        for k, v in pt_cells(CI, d, cv).items():
            r[off + k] = v
    return r


def family(D, st, n, tag, cv):
    """a vector of n pairs of arbitrary ciphertexts"""
    e = D.e
    p = cells(st, 24, 'all')
    bv = T.bvar(0)
    inner = [Seg(P(j), ONE, gen_ctxt(bv.poly, j, tag, cv)) for j in (0, 1)]
    import lib
    gv = GenVec(P(2), 160, inner, 'dme::CTXT')
    lib.vec_new(e, st, p, 24, 'std::vector<dme::CTXT, std::allocator<dme::CTXT> >', n, [Seg(ZERO, n, {0: (24, gv)}, bv)])
    return p


def dsum(n, b, x, tag):
    bv = T.bvar(0)
    i = bv.poly
    return Sum(App('mv%d_%s' % (b, tag), i, lo=0, hi=N - 1) - x * App('u%d_%s' % (b, tag), i, lo=0, hi=N - 1), n, bv)


def c14_aggr(ctl, b):
    D = Drv(ctl, 'aggregate of any number of senders, position %d' % b)
    e = D.e
    st0 = State()
    st, crs, _ = put_crs(D, st0.clone())
    o1, o2 = cells(st, 8, 'o1'), cells(st, 8, 'o2')

    def once(st, prx, rcv, sk, x, tag):
        n = S('n' + tag, 1, (1 << 40))
        cv = put_curve(e, st, CI, 'curve of the senders')
        al = family(D, st, n, tag, cv)
        st, c0 = D.mk(st, 'ctxt')
        st, c1 = D.mk(st, 'ctxt')
        for st1, _ in D.call(st, 'ob_aggregate', prx, al, c0, c1):
            for st2, r in dec(D, st1, rcv, sk, (c0, c1)[b]):
                D.want_pt(st2, r, dsum(n, b, x, tag), tag + 'decrypts to the sum over the senders')
                yield st2
    for st1, _ in D.call(st, 'ob_new_dotprxy', crs, o1):
        for st2, _ in D.call(st1, 'ob_new_crs', crs, o2):
            prx, rcv = D.ptr(st2, o1), D.ptr(st2, o2)
            x = S('sk', 0, N - 1)
            sk = put_f(e, st2, 'Field_secp256r1_n', x, 'sk')
            for st3 in once(st2.clone(), prx, rcv, sk, x, ''):
                D.n += 1
                g = Gen(e, D.what + ', proxy used before')
                y = g.generalise(st2, st3, [prx])
                for z in once(y, prx, rcv, sk, x, 'second '):
                    g.conform(z)
    D.done(st0)


for _b in (0, 1):
    def _f(ctl, b=_b):
        c14_aggr(ctl, b)
    TASKS['DOT aggregate %d' % _b] = Task('DOT aggregate %d' % _b, _f)


def c14_full(ctl, b, n):
    """whole transfers: the steps composed"""
    D = Drv(ctl, 'transfer from %d senders, choice %d' % (n, b))
    e = D.e
    st0 = State()
    st, crs, _ = put_crs(D, st0.clone())
    outs = [cells(st, 8, 'o%d' % i) for i in range(n + 2)]
    sts = [st]
    for i, o in enumerate(outs):
        f = 'ob_new_dotrecv' if i == 0 else 'ob_new_dotprxy' if i == 1 else 'ob_new_dotsndr'
        sts = [y for x in sts for y, _ in D.call(x, f, crs, o)]
    for st1 in sts:
        st2, pk = D.mk(st1, 'pkey')
        out, _ = D.newpt(st2, 'out', 0, NULL)
        import lib
        ms, mv = [], []
        cv = put_curve(e, st2, CI, 'curve of the messages')
        for k in (0, 1):
            v = cells(st2, 24, 'm%d' % k)
            segs, ds = [], []
            for i in range(n):
                d = S('m%d_%d' % (k, i), 0, N - 1)
                segs.append(Seg(P(i), ONE, pt_cells(CI, d, cv)))
                ds.append(d)
            lib.vec_new(e, st2, v, 80, 'ecc::Point<Secp256r1>', P(n), segs)
            ms.append(v)
            mv.append(ds)
        arr = cells(st2, 8 * n, 'senders')
        for i in range(n):
            e.store(st2, Ptr(arr.obj, 8 * i), D.ptr(st2, outs[i + 2]), 'p')
        for st3, _ in D.call(st2, 'ob_dot', D.ptr(st2, outs[0]), arr, D.ptr(st2, outs[1]), P(b), ms[0], ms[1], P(n), out):
            D.n += 1
            D.want_pt(st3, out, sum(mv[b], ZERO), 'the sum of the messages at the chosen position')
    D.done(st0)


for _b in (0, 1):
    for _k in (1, 2, 3):
        def _f(ctl, b=_b, k=_k):
            c14_full(ctl, b, k)
        TASKS['DOT transfer %d, %d senders' % (_b, _k)] = Task('DOT transfer %d, %d senders' % (_b, _k), _f)
