"""C27: ElGamal (clients in harness/c_elgamal.cpp)."""
from tasks_dme import *

EG_SHIFT = 20
ASSUME_EG = 'one of the 2^20 candidate abscissas of every encoded integer is the abscissa of a point'


def ends(D, st, *ds):
    from points import _apps
    for d in ds:
        for a in _apps(eq(P(d), ZERO)):
            if a.kind == 'sym' and str(a.args[0]).startswith('k:'):
                st.assume(lt(a.poly, P(1 << EG_SHIFT)))


def parties(D, st):
    """the key owner's object and the sender's"""
    out = cells(st, 8, 'out')
    for st1, _ in D.call(st, 'eg_new', out):
        a = D.ptr(st1, out)
        for st2, _ in D.call(st1, 'eg_new', out):
            yield st2, a, D.ptr(st2, out)
        yield st1, a, a


def keygen(D, st, a, nm=''):
    pk = D.newpt(st, 'pk' + nm, 0, NULL)[0]
    sk = put_f(D.e, st, 'Field_secp256r1_n', ZERO, 'sk' + nm)
    for st1, _ in D.call(st, 'eg_keygen', a, pk, sk):
        yield st1, pk, sk


def c27_keygen(ctl):
    D = Drv(ctl, 'ElGamal keyGen')
    e = D.e
    st0 = State()
    for st1, pk, sk in ((x, y, z) for st, a, b in parties(D, st0.clone()) for x, y, z in keygen(D, st, a)):
        D.n += 1
        k = D.fld(st1, sk, 'secret key')
        if k is not None:
            D.want_pt(st1, pk, k, 'the public key is the base point times the secret key')
            d = [x for x in st1.log if x[0] not in ('each', 'shuffle')]
            e.oblige(st1, bconst(len(d) >= 1), 'ElGamal keyGen: the secret key is drawn at random')
    D.done(st0)


def c27(ctl, what):
    D = Drv(ctl, 'ElGamal decrypt(encrypt(%s))' % what)
    e = D.e
    st0 = State()
    for st1, pk, sk, a, b in ((x, y, z, a, b) for st, a, b in parties(D, st0.clone()) for x, y, z in keygen(D, st, a)):
        if D.fld(st1, sk, 'secret key') is None:
            continue
        u, mv = D.newpt(st1, 'u', 0, NULL)[0], D.newpt(st1, 'mv', 0, NULL)[0]
        out = put_z(e, st1, S('old', -INF, INF), 'out')
        if what == 'integer':
            m = S('m', 0, (CI.p >> EG_SHIFT) - 1)
            mz = put_z(e, st1, m, 'm')
            for st2, _ in D.call(st1, 'eg_enc_int', b, pk, mz, u, mv):
                k = D.fld(st2, sk, 'secret key')
                cu, cv = D.pt(st2, u, 'first component'), D.pt(st2, mv, 'second component')
                if cu is None or cv is None:
                    continue
                ends(D, st2, cu, cv)
                for st3, _ in D.call(st2, 'eg_dec', a, sk, u, mv, out):
                    D.n += 1
                    e.oblige(st3, eq(e.zget(st3, out), m), D.what + ': returns the integer')
                    e.oblige(st3, eq(e.zget(st3, mz), m), D.what + ': message unchanged')
        else:
            m, d = D.newpt(st1, 'm', nz=True)
            for st2, _ in D.call(st1, 'eg_enc', b, pk, m, u, mv):
                D.want_pt(st2, m, d, 'message unchanged')
                for st3, _ in D.call(st2, 'eg_dec', a, sk, u, mv, out):
                    D.n += 1
                    x = CI.x(d)
                    e.oblige(st3, eq(e.zget(st3, out), Div(x, 1 << EG_SHIFT)), D.what + ': the integer encoded by the point')
    D.done(st0)


TASKS['ElGamal keyGen'] = Task('ElGamal keyGen', c27_keygen)
for _w in ('integer', 'point'):
    TASKS['ElGamal ' + _w] = Task('ElGamal ' + _w, lambda ctl, w=_w: c27(ctl, w))
