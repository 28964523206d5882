"""C12: equality is component-wise, copies are faithful (clients in harness/c_copy.cpp)."""
from tasks_dme import *
import lib

KINDS = {'pkey': 'PP', 'ctxt': 'PP', 'crs': 'PPPP', 'tdm': 'FF', 'tdd': 'F', 'keypair': 'KF'}


def part(D, st, k, name, d=None):
    """an arbitrary component: (state, pointer, values)"""
    if k == 'P':
        q, d = D.newpt(st, name, d)
        return st, q, [d]
    if k == 'F':
        v = S(name, 0, N - 1) if d is None else P(d)
        return st, put_f(D.e, st, 'Field_secp256r1_n', v, name), [v]
    qs, vs = [], []
    for i in 'gh':
        q, v = D.newpt(st, name + i, None if d is None else d)
        qs.append(q)
        vs.append(v)
    st, pk = D.mk(st, 'pkey')
    st, _ = D.one(st, 'ob_make_pkey', *qs, pk)
    return st, pk, vs


def make(D, st, kind, name, zero=False):
    qs, vs = [], []
    for i, k in enumerate(KINDS[kind]):
        st, q, v = part(D, st, k, '%s%d' % (name, i), 0 if zero else None)
        qs.append(q)
        vs += v
    n = D.one(st, 'ob_sizeof_' + kind)[1].const()
    p = cells(st, n, name)
    st, _ = D.one(st, 'ob_make_' + kind, *qs, p)
    return st, p, vs


def values(D, st, kind, p):
    """the component values read back through the members"""
    qs = []
    for i, k in enumerate(KINDS[kind]):
        st, q, _ = part(D, st, k, 'back%d' % i, 0)
        qs.append(q)
    st, _ = D.one(st, 'ob_get_' + kind, p, *qs)
    r = []
    for k, q in zip(KINDS[kind], qs):
        if k == 'P':
            r.append(D.pt(st, q, 'component'))
        elif k == 'F':
            r.append(D.fld(st, q, 'component'))
        else:
            st, v = get_pk(D, st, q)
            r += v or [None, None]
    return st, r


def want(D, st, kind, p, vs, what):
    st, r = values(D, st, kind, p)
    for i, (a, b) in enumerate(zip(r, vs)):
        if a is not None:
            D.e.oblige(st, eq(Mod(a, N), Mod(b, N)), '%s: %s: component %d' % (D.what, what, i))
    return st


def c12_copy(ctl, kind):
    D = Drv(ctl, 'copies of ' + kind)
    st0 = State()
    st, x, vs = make(D, st0, kind, 'x')
    st = want(D, st, kind, x, vs, 'construction from components')
    n = D.one(st, 'ob_sizeof_' + kind)[1].const()
    for op in ('copy', 'assign to a default object', 'assign to another value', 'assign to itself'):
        st1 = st.clone()
        if op == 'copy':
            y, fn = cells(st1, n, 'y'), 'ob_copy_'
        elif op == 'assign to itself':
            y, fn = x, 'ob_assign_'
        elif op == 'assign to another value':
            st1, y, _ = make(D, st1, kind, 'y')
            fn = 'ob_assign_'
        else:
            (st1, y), fn = D.mk(st1, kind), 'ob_assign_'
        for st2, _ in D.call(st1, fn + kind, x, y):
            st2 = want(D, st2, kind, y, vs, op)
            st2 = want(D, st2, kind, x, vs, op + ': source')
            for st3, v in D.call(st2, 'ob_eq_' + kind, x, y):
                D.n += 1
                cmp_val(D.e, st3, v, TRUE, '%s: %s: equal to the source' % (D.what, op))
    D.done(st0)


def c12_eq(ctl, kind):
    D = Drv(ctl, 'equality of ' + kind)
    st0 = State()
    st, x, vs = make(D, st0, kind, 'x')
    st, y, ws = make(D, st, kind, 'y')
    for st1, v in D.call(st, 'ob_eq_' + kind, x, y):
        D.n += 1
        cmp_val(D.e, st1, v, and_(*[eq(a, b) for a, b in zip(vs, ws)]), D.what + ': exactly when all components are equal')
        st1 = want(D, st1, kind, x, vs, 'operand')
        want(D, st1, kind, y, ws, 'operand')
    D.done(st0)


for _k in KINDS:
    def _f(ctl, k=_k):
        c12_copy(ctl, k)
    TASKS['copies of ' + _k] = Task('copies of ' + _k, _f)

    def _f(ctl, k=_k):
        c12_eq(ctl, k)
    TASKS['equality of ' + _k] = Task('equality of ' + _k, _f)


# ------------------------------------------------------------------ points and curves
def zcurve(D, st, ci, name, **fix):
    """a curve object with arbitrary parameters"""
    cv = put_curve(D.e, st, ci, name)
    o = st.w(cv.obj)
    vs = []
    for k, nm in zip(CT.curve_layout(), ('prime', 'a', 'b', 'order', 'cofactor')):
        v = S(name + '.' + nm)
        o.cells[k] = (16, Z(v))
        vs.append(v)
    return cv, vs


def raw_eq(D, st, nm, ci, p, x, y, what):
    F = 'Field_%s_p' % ci.name
    qx, qy = put_f(D.e, st, F, ZERO, 'gx'), put_f(D.e, st, F, ZERO, 'gy')
    for st1, _ in D.call(st, 'ob_get_' + nm, p, qx, qy):
        for q, v, w in ((qx, x, 'x'), (qy, y, 'y')):
            f = field_at(D.e, st1, q)
            if f is None:
                D.e.oblige(st1, FALSE, '%s: %s: %s' % (D.what, what, w))
            else:
                D.e.oblige(st1, and_(eq(f[0], v), eq(f[1], P(ci.p))), '%s: %s: %s' % (D.what, what, w))
        return st1
    return st


ASSUME_NUMERAL = 'the text given to a point constructor is a numeral of the given base (reading it is a trusted function of GMP)'


def text(st, name):
    """an arbitrary text: (length, value of its bytes)"""
    n = S(name + 'len', 1, INF)
    v = S(name, 0, INF)
    st.assume(lt(v, T.Pow(256, n)))
    return n, v


def put_text(e, st, t, string):
    if string:
        p = cells(st, 32, 'string')
        lib.str_new(e, st, p, *t, 'txt')
        return p
    o = new_obj(st, 'bytes', t[0] + 1, 'text')
    o.segs = [BSeg(ZERO, *t, 'txt'), BSeg(t[0], ONE, ZERO)]
    return Ptr(o.id)


def c12_point(ctl, ci):
    """constructors, copies and equality of points, with raw coordinates"""
    nm = ci.name
    D = Drv(ctl, 'copies and equality of Point_' + nm)
    D.e.inline = {c.name for c in CT.ALL if isinstance(c, CT.PointOp) and c.ci is ci and c.op == '=='}
    e = D.e
    F = 'Field_%s_p' % nm
    st0 = State()
    st = st0.clone()
    cv, params = zcurve(D, st, ci, 'c1')
    cv2, params2 = zcurve(D, st, ci, 'c2')
    x, y = S('x', 0, ci.p - 1), S('y', 0, ci.p - 1)
    qx, qy = put_f(e, st, F, x, 'px'), put_f(e, st, F, y, 'py')
    n = D.one(st, 'ob_sizeof_' + nm)[1].const()
    p = cells(st, n, 'p')
    st, _ = D.one(st, 'ob_make_' + nm, qx, qy, cv, p)

    def check(st, q, x, y, inf, c, what):
        if not inf:
            st = raw_eq(D, st, nm, ci, q, x, y, what)
        st, v = D.one(st, 'ob_inf_' + nm, q)
        cmp_val(e, st, v, bconst(inf), '%s: %s: infinity flag' % (D.what, what))
        st, v = D.one(st, 'ob_curve_' + nm, q)
        if not inf:
            cmp_val(e, st, v, c, '%s: %s: curve' % (D.what, what))
        return st
    st = check(st, p, x, y, False, cv, 'construction from coordinates')
    xz, yz = S('xz'), S('yz')
    zx, zy = put_z(e, st, xz, 'zx'), put_z(e, st, yz, 'zy')
    pz = cells(st, n, 'pz')
    st, _ = D.one(st, 'ob_makez_' + nm, zx, zy, cv2, pz)
    st = check(st, pz, Mod(xz, ci.p), Mod(yz, ci.p), False, cv2, 'construction from integers')
    # from numerals: texts of any length, in any base, and in base ten when none is given
    tx, ty = text(st, 'tx'), text(st, 'ty')
    base = S('base', 2, 62)
    for args, b, what in ((('ob_makes_', True, base), base, 'strings'), (('ob_makesd_', True), P(10), 'strings, default base'),
                          (('ob_makec_', False, base), base, 'C strings'), (('ob_makecd_', False), P(10), 'C strings, default base')):
        st1 = st.clone()
        px, py = (put_text(e, st1, t, args[1]) for t in (tx, ty))
        q = cells(st1, n, 'ps')
        for st2, _ in D.call(st1, args[0] + nm, px, py, cv2, *args[2:], q):
            D.n += 1
            check(st2, q, *[Mod(App('numeral', v, m, b), ci.p) for m, v in (tx, ty)], False, cv2, 'construction from ' + what)
    o = cells(st, n, 'o')
    st, _ = D.one(st, 'ob_default_' + nm, o)
    st = check(st, o, ZERO, ZERO, True, NULL, 'default construction')
    # an infinity that remembers its curve
    o3 = put_xy(e, st, ci, ZERO, ZERO, cv, 'o3', True)
    # copies
    for src, inf, c, xx, yy in ((p, False, cv, x, y), (o, True, NULL, ZERO, ZERO), (o3, True, cv, ZERO, ZERO)):
        for op in ('copy', 'assign to infinity', 'assign to a finite point', 'assign to itself', 'operator= to infinity', 'operator= to a finite point', 'operator= to itself'):
            st1 = st.clone()
            if op.endswith('to itself'):
                dst = src
            elif op.endswith('to a finite point'):
                dst = cells(st1, n, 'dst')
                st1, _ = D.one(st1, 'ob_make_' + nm, qy, qx, cv2, dst)
            else:
                dst = cells(st1, n, 'dst')
                if op != 'copy':
                    st1, _ = D.one(st1, 'ob_default_' + nm, dst)
            for st2, _ in D.call(st1, ('ob_copy_' if op == 'copy' else 'ob_assignp_' if op.startswith('op') else 'ob_assign_') + nm, src, dst):
                what = '%s of %s' % (op, 'infinity' if inf else 'a finite point')
                st2 = check(st2, dst, xx, yy, inf, c, what)
                st2 = check(st2, src, xx, yy, inf, c, what + ': source')
                for st3, v in D.call(st2, 'ob_eq_' + nm, src, dst):
                    D.n += 1
                    cmp_val(e, st3, v, TRUE, '%s: %s: equal to the source' % (D.what, what))
    # equality
    st.assume(*on_curve_any(ci, params, x, y), *on_curve_any(ci, params2, xz, yz))
    same_params = and_(*[eq(a, b) for a, b in zip(params, params2)])
    fin = and_(eq(x, Mod(xz, ci.p)), eq(y, Mod(yz, ci.p)), same_params)
    o2 = cells(st, n, 'o2')
    st, _ = D.one(st, 'ob_default_' + nm, o2)
    for a, b, w, what in ((p, pz, fin, 'two finite points'), (pz, p, fin, 'two finite points, swapped'), (o, o2, TRUE, 'two infinite points'),
                          (o, o3, TRUE, 'two infinite points'), (o3, o, TRUE, 'two infinite points'), (p, o, FALSE, 'finite and infinite'),
                          (o, p, FALSE, 'infinite and finite'), (p, o3, FALSE, 'finite and infinite'), (o3, pz, FALSE, 'infinite and finite'),
                          (p, p, TRUE, 'a point and itself')):
        for st1, v in D.call(st.clone(), 'ob_eq_' + nm, a, b):
            D.n += 1
            cmp_val(e, st1, v, w, '%s: equality of %s' % (D.what, what))
    D.done(st0)


def on_curve_any(ci, params, x, y):
    """a finite point of a curve that does not contain (0, 0)"""
    return [or_(not_(eq(Mod(x, ci.p), ZERO)), not_(eq(Mod(y, ci.p), ZERO)))]


def c12_curve(ctl, ci):
    nm = ci.name
    D = Drv(ctl, 'copies and equality of Curve_' + nm)
    e = D.e
    st0 = State()
    st = st0.clone()
    c1, p1 = zcurve(D, st, ci, 'c1')
    c2, p2 = zcurve(D, st, ci, 'c2')
    for st1, v in D.call(st.clone(), 'ob_eqc_' + nm, c1, c2):
        D.n += 1
        cmp_val(e, st1, v, and_(*[eq(a, b) for a, b in zip(p1, p2)]), D.what + ': exactly when all parameters are equal')
    n = D.one(st, 'ob_sizeofc_' + nm)[1].const()
    c3 = cells(st, n, 'c3')
    for st1, _ in D.call(st, 'ob_copyc_' + nm, c1, c3):
        zs = [put_z(e, st1, ZERO, 'z%d' % i) for i in range(4)]
        for c in (c3, c1):
            st2, _ = D.one(st1.clone(), 'ob_getc_' + nm, c, *zs)
            for z, v in zip(zs, p1):
                e.oblige(st2, eq(e.zget(st2, z), v), D.what + ': copy')
        for st2, v in D.call(st1, 'ob_eqc_' + nm, c1, c3):
            D.n += 1
            cmp_val(e, st2, v, TRUE, D.what + ': a copy is equal')
    D.done(st0)


for _ci in (SECP, BN):
    def _f(ctl, ci=_ci):
        c12_point(ctl, ci)
    TASKS['copies and equality of Point_' + _ci.name] = Task('copies and equality of Point_' + _ci.name, _f)

    def _f(ctl, ci=_ci):
        c12_curve(ctl, ci)
    TASKS['copies and equality of Curve_' + _ci.name] = Task('copies and equality of Curve_' + _ci.name, _f)
