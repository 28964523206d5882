"""C24-C26: the oblivious programmable PRF (clients in harness/c_opprf.cpp).

Threshold and input are arbitrary: theta = sum of 2^j T_j, x = sum of 2^j X_j with arbitrary bits.
The rounds are verified one after the other, each from a state that stands for every state the
earlier rounds can leave behind: whatever the two parties hold is arbitrary, except that the
values the rounds so far determine uniquely (the client's key) are kept for each outcome of the
comparison of the bits compared so far (equal, less, greater); the accumulated point is arbitrary.
A round's lemma: the client's point grows by X_j 2^j ga + w_j with w_j independent of the bits, and
the client's new key depends on the new outcome of the comparison only."""
from tasks_dme import *
from gen import Gen
from loops import apply_state

BITS = 16
ASSUME_OP = ('no accidental checksum match: decryption under a key different from the one used for encryption fails',
             'the 128-bit random keys are distinct and not zero; the random points that are encoded, the unblinding mask and the secret point are not infinity, the points encoded do not have abscissa 0',
             'one of the 2^10 candidate abscissas of every encoded message is the abscissa of a point')


class Parties:
    pass


def known(D, st, pairs):
    """the case in which the symbols have these values"""
    st = st.clone()
    for a, v in pairs:
        v = P(v)
        lo, hi = rng(a)
        st.assume(*[c for c in (le(P(lo), v) if lo != -INF else TRUE, le(v, P(hi)) if hi != INF else TRUE)])
        apply_state(D.e, st, {a.atom(): v})
    return st


def new_parties(D, st):
    p = Parties()
    st, crs, _ = put_crs(D, st)
    o1, o2 = cells(st, 8, 'o1'), cells(st, 8, 'o2')
    p.T = [S('t%d' % i, 0, 1) for i in range(BITS)]
    p.theta = sum((t.scale(1 << i) for i, t in enumerate(p.T)), ZERO)
    st, _ = D.one(st, 'op_new_server', p.theta, crs, o1)
    st, _ = D.one(st, 'op_new_client', crs, o2)
    p.srv, p.cl = D.ptr(st, o1), D.ptr(st, o2)
    return st, p


def read_pt(D, st, fn, obj, what):
    st = st.clone()
    q, _ = D.newpt(st, 'read', 0, NULL)
    for st1, _ in D.call(st, fn, obj, q):
        return D.pt(st1, q, what)


def draws(log0, log):
    return [x for x in log[len(log0):] if x[0] not in ('each', 'shuffle')]


def outcome(lab, t, x):
    return lab if lab != 'eq' or t == x else 'lt' if x < t else 'gt'


class Eval:
    """one evaluation, from a given state of the parties"""

    def __init__(s, D, p, tag, labels):
        s.D, s.e, s.p, s.tag, s.labels = D, D.e, p, tag, labels

    def ob(s, st, g, name):
        s.e.oblige(st, g, '%s%s: %s' % (s.D.what, s.tag, name))

    def prepare(s, st):
        D, e, p = s.D, s.e, s.p
        ga, s.a = D.newpt(st, 'a' + s.tag, nz=True)
        st, _ = D.one(st, 'op_secret', p.srv, ga)
        log0 = st.log
        e.merge_all = True
        try:
            st, _ = D.one(st, 'op_prepare', p.srv)
        finally:
            e.merge_all = False
        s.random_keys(st, log0)
        s.X = [S('x%d%s' % (i, s.tag), 0, 1) for i in range(BITS)]
        st, _ = D.one(st, 'op_message', p.cl, sum((t.scale(1 << i) for i, t in enumerate(s.X)), ZERO))
        s.kopprf = read_pt(D, st, 'op_kopprf', p.srv, 'the key point')
        z = read_pt(D, st, 'op_result', p.cl, 'the result before the first round')
        if z is not None:
            s.ob(st, eq(Mod(z, N), ZERO), 'the accumulation starts with nothing')
        st, s.pk = D.mk(st, 'pkey')
        s.oc = cells(st, 8, 'oc')
        return st

    def random_keys(s, st, log0):
        for x in draws(log0, st.log):
            if x[2] == 0 and x[3] == (1 << 128) - 1:
                st.assume(le(ONE, x[1]))

    def round(s, st, R, sig):
        """sig: label -> known values; -> state, labels' known values"""
        D, e, p = s.D, s.e, s.p
        j = R - 1
        old = read_pt(D, st, 'op_result', p.cl, 'the accumulated point')
        outs = []
        for x in (0, 1):
            sx = st.clone()
            sx.assume(eq(s.X[j], P(x)))
            for s1, _ in D.call(sx, 'op_start', p.cl, P(R), s.pk):
                for s2, _ in D.call(s1, 'op_serve', p.srv, P(R), s.pk, s.oc):
                    for lab, vals in sig.items():
                        for t in (0, 1) if lab == 'eq' else (None, ):
                            new = outcome(lab, t, x)
                            if new not in s.labels:
                                continue
                            s3 = known(D, s2, vals)
                            if t is not None:
                                s3.assume(eq(p.T[j], P(t)))
                            for s4, _ in D.call(s3, 'op_end', p.cl, P(R), D.ptr(s3, s.oc)):
                                outs.append((new, x, s4))
        if {l for l, _, _ in outs} != (set(s.labels) if R < BITS else set(s.labels)):
            s.ob(st, FALSE, 'round %d returns' % R)
            raise BadPath('round')
        w = None
        for lab, x, so in outs:
            d = read_pt(D, so, 'op_result', p.cl, 'the accumulated point')
            if d is None or old is None:
                raise BadPath('round')
            d = Mod(d - old - s.a.scale(x << j), N)
            if w is None:
                w = simp_poly(d, so.ctx)
            s.ob(so, eq(Mod(d - w, N), ZERO), 'round %d: the accumulation grows by X 2^%d times the secret and a blinding that depends on the round only' % (R, j))
        s.w.append(w)
        return s.join(st, R, outs)

    def join(s, st, R, outs):
        """one state for all outcomes"""
        e, p = s.e, s.p
        roots = [p.srv, p.cl]
        base = outs[0][2].clone()
        base.ctx, base.log, base.foralls = st.ctx, st.log, st.foralls
        base.cnt = max(so.cnt for _, _, so in outs)
        what = '%s%s, round %d' % (s.D.what, s.tag, R)
        g = Gen(e, what)
        g.generalise(st, base, roots)
        wide, vals = {}, {}
        for lab, x, so in outs:
            g.conform(so, dry=True)
            for k, v in g.vals.items():
                lo, hi = rng(simp_poly(v, so.ctx), so.ctx.rg)
                q = wide.get(k)
                wide[k] = (min(lo, q[0]), max(hi, q[1])) if q else (lo, hi)
        g = Gen(e, what)
        g.wide = wide
        new = g.generalise(st, base, roots)
        for lab, x, so in outs:
            g.conform(so)
            for k, v in g.vals.items():
                vals.setdefault(lab, {}).setdefault(k, []).append(simp_poly(v, so.ctx))
        sig = {}
        for lab in vals:
            sig[lab] = [(g.syms[k], vs[0]) for k, vs in vals[lab].items() if k in g.syms and all(v == vs[0] for v in vs) and not vs[0].is_const()]
        return new, sig

    def run(s, st):
        """-> list of (label, final state)"""
        D, e, p = s.D, s.e, s.p
        s.w = []
        st = s.prepare(st)
        sig = {'eq': []}
        for R in range(BITS, 0, -1):
            st, sig = s.round(st, R, sig)
        return s.unmask(st, sig)

    def unmask(s, st, sig):
        D, e, p = s.D, s.e, s.p
        old = read_pt(D, st, 'op_result', p.cl, 'the accumulated point')
        om = cells(st, 8, 'om')
        if s.kopprf is not None:
            mask = Mod(s.kopprf - sum(s.w, ZERO), N)
            st.assume(not_(eq(mask, ZERO)), not_(eq(CI.x(mask), ZERO)))
        res = []
        for s1, _ in D.call(st, 'op_masks', p.srv, om):
            new = draws(st.log, s1.log)
            for x in new:
                if x[0] == 'getRandomPoint' or x[3] == N - 1:
                    s1.assume(not_(eq(CI.x(x[1]), ZERO)))
            for lab, vals in sig.items():
                if lab == 'eq' and 'gt' in s.labels:
                    continue
                s2 = known(D, s1, vals)
                arr = D.ptr(s2, om)
                if lab == 'gt':
                    s.opens(s2, vals, arr, new)
                for s3, _ in D.call(s2, 'op_unmask', p.cl, arr):
                    d = read_pt(D, s3, 'op_result', p.cl, 'the final value')
                    if d is None or s.kopprf is None:
                        continue
                    D.n += 1
                    if lab != 'gt':
                        s.ob(s3, eq(Mod(d - old + sum(s.w, ZERO) - s.kopprf, N), ZERO),
                             'input %s the threshold: the result is the key point plus the secret times the input' % {'eq': 'equal to', 'lt': 'below'}[lab])
                    else:
                        m = Mod(d - old, N)
                        s.ob(s3, bconst(any(bool(CT.PR.prove(eq(Mod(m - x[1], N), ZERO), s3.ctx)) for x in new)),
                             'input above the threshold: the final value is the accumulation plus a new random point')
                    res.append((lab, s3))
        return res

    def opens(s, st, known, arr, new):
        """exactly one of the final ciphertexts opens, with a point drawn only for it"""
        import contracts as CT
        z = put_z(s.e, st, ZERO, 'z')
        cs = []
        for i in range(3):
            (s1, _), = s.D.call(st.clone(), 'op_mask', arr, P(i), z)
            cs.append(simp_poly(s.e.zget(s1, z), s1.ctx))
        opened = []
        for c in cs:
            a = c.atom()
            if a is None or a.kind != 'app' or a.args[0] != 'aescrc':
                s.ob(st, FALSE, 'the final messages are ciphertexts')
                return
            for _, v in known:
                if simp_poly(v, st.ctx) == a.args[1]:
                    opened.append(a)
                    break
        s.ob(st, bconst(len(opened) == 1), 'input above the threshold: the key opens exactly one of the final ciphertexts')
        for a in opened:
            fr = set(T.fvp(a.args[2]))
            ok = [x for x in new if P(x[1]).atom() in fr]
            s.ob(st, bconst(len(ok) == 1 and len(fr) == 1), 'input above the threshold: it holds a point drawn for nothing else')
            for c in cs:
                if c.atom() is not a:
                    s.ob(st, bconst(not ok or P(ok[0][1]).atom() not in set(T.fvp(c))), 'input above the threshold: no other ciphertext depends on that point')


UPTO, ABOVE = ('eq', 'lt'), ('eq', 'gt')


def drv(ctl, what):
    return Drv(ctl, what, may_change=[r'^aes::AES::iv'], finite_points=True, max_steps=10 ** 8)


def assuming(fn):
    def run(ctl):
        CT.NOMATCH[0] = CT.Encode.ON[0] = True
        try:
            fn(ctl)
        finally:
            CT.NOMATCH[0] = CT.Encode.ON[0] = False
    return run


def evaluate(D, st0, st, p, tag, labels):
    fin = Eval(D, p, tag, labels).run(st)
    for lab in labels:
        if (lab != 'eq' or labels == UPTO) and lab not in {l for l, _ in fin}:
            D.e.oblige(st0, FALSE, '%s%s: an evaluation with input %s the threshold ends' % (D.what, tag, {'eq': 'equal to', 'lt': 'below', 'gt': 'above'}[lab]))
    return fin


def single(labels):
    def run(ctl):
        D = drv(ctl, 'OPPRF')
        st0 = State()
        st, p = new_parties(D, st0)
        evaluate(D, st0, st, p, '', labels)
        D.done(st0)
    return assuming(run)


def cleaned(D, p, fin):
    out = []
    for lab, st in fin:
        for s1, _ in D.call(st, 'op_clean_server', p.srv):
            for s2, _ in D.call(s1, 'op_clean_client', p.cl):
                out.append(s2)
    return out


def again(labels):
    """an evaluation with parties that have been used any number of times and cleaned: whatever the
    earlier evaluations leave behind is arbitrary (an invariant: conform), and the evaluation
    has the specified result for all of it"""
    def run(ctl):
        D = drv(ctl, 'OPPRF after clean-up')
        st0 = State()
        st, p = new_parties(D, st0)
        one = cleaned(D, p, evaluate(D, st0, st, p, ' (first evaluation)', UPTO))
        g = Gen(D.e, D.what)
        if not one:
            return D.done(st0)
        y = g.generalise(st, one[0], [p.srv, p.cl])
        # the state that stands for all earlier histories; nothing else is known about it
        y.ctx, y.log, y.foralls = st.ctx.add(*[f for f in y.ctx.facts if f.id not in one[0].ctx.ids]), (), ()
        g.ref.ctx, g.ref.foralls = y.ctx, ()
        for x in one:
            g.conform(x)
        if labels is ABOVE:
            for x in cleaned(D, p, evaluate(D, st0, st, p, ' (first evaluation, above)', ABOVE)):
                g.conform(x)
        for x in cleaned(D, p, evaluate(D, st0, y, p, ' (parties used before)', labels)):
            g.conform(x)
        D.done(st0)
    return assuming(run)


for _n, _l in (('up to', UPTO), ('above', ABOVE)):
    TASKS['OPPRF %s the threshold' % _n] = Task('OPPRF %s the threshold' % _n, single(_l))
    TASKS['OPPRF again %s the threshold' % _n] = Task('OPPRF again %s the threshold' % _n, again(_l))
