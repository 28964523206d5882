"""Which tasks decide which property (the tasks of all contracts they use are added)."""
import tasks
import tasks_all
import tasks_dme
import contracts as CT
from points import FIELDS


class Prop:
    def __init__(s, roots, assumptions=(), compiles=()):
        s.roots, s.compiles = list(roots), set(compiles)
        s.assumptions = [a for a in assumptions if a not in LEMMAS]
        s.lemmas = [LEMMAS[a] for a in assumptions if a in LEMMAS]

    def note(s):
        return ('Every obligation is discharged for all inputs, on LLVM IR compiled from the current sources. Trusted: clang front end, '
                'the VC generator engine/*.py, contracts of external functions (GMP, libc, libstdc++, OpenSSL).' +
                (' Lemmas proved in Lean: ' + '; '.join(x[2] for x in s.lemmas) + '.' if s.lemmas else '') +
                (' Assumed: ' + '; '.join(s.assumptions) + '.' if s.assumptions else ''))


# mathematical lemmas, each proved in Lean (file, theorems)
GROUP, SQRT, LAGRANGE = 'group', 'sqrt', 'lagrange'
LEMMAS = {GROUP: ('Group.lean', ['on_curve', 'chord', 'tangent', 'opposite', 'multiples', 'curve_order', 'nonsingular'],
                  'the points of each curve form a cyclic group of order n under chord-and-tangent addition'),
          SQRT: ('Sqrt.lean', ['sqrt_three_mod_four', 'roots_opposite'], 'p = 3 mod 4: y^((p+1)/4) is a root of y exactly when y is a square'),
          LAGRANGE: ('Lagrange.lean', ['reconstruct'], 'the reconstruction formula is the value at zero of the interpolating polynomial')}
PROPS = {}


def prop(pid, roots, *assumptions, compiles=()):
    if GROUP in assumptions and 'curve constants' not in roots:
        roots = list(roots) + ['curve constants']
    PROPS[pid] = Prop(roots, assumptions, compiles)


CURVES = ('secp256r1', 'bn254')
prop('C01', [c.name for c in CT.ALL if isinstance(c, CT.FieldCtor) or isinstance(c, CT.FieldOp) and c.op not in ('/', '/=', 'invert')])
prop('C02', [c.name for c in CT.ALL if isinstance(c, CT.FieldOp) and c.op in ('/', '/=', 'invert')])
prop('C03', [c.name for c in CT.ALL if isinstance(c, CT.PointOp) and c.op[0] != '*'], GROUP)
prop('C04', [c.name for c in CT.ALL if isinstance(c, CT.PointOp) and c.op[0] == '*'], GROUP)
prop('C05', [c.name for c in CT.ALL if isinstance(c, (CT.CurveCtor, CT.CurveRandom))] + ['curve constants'] +
     ['Point_%s::isValid' % c for c in CURVES] + ['Curve_%s::evaluatePy2' % c for c in CURVES], GROUP, 'the random generator returns values of the requested range')
prop('C06', ['Point_%s::encodedX' % c for c in CURVES] + ['Curve_%s::evaluateP/evaluatePneg' % c for c in CURVES], GROUP, SQRT)

T = tasks.TASKS


def named(*rx):
    import re
    r = [n for x in rx for n in T if re.fullmatch(x, n)]
    assert r, rx
    return r


ENC = tasks_dme.ASSUME_ENC
prop('C07', ['decode(encode(m))', 'decode depends on the abscissa only'], GROUP, SQRT, ENC)
prop('C08', named(r'Dec\(Enc\(m\)\).*', r'DecDecode\(.*'), GROUP, SQRT, ENC)
prop('C09', named(r'FindMessy.*', r'messy branch.*'), GROUP)
prop('C10', named(r'TrapKeyGen.*', r'key of branch.*'), GROUP)
prop('C11', named(r'Dec\(Eval.*'), GROUP)
import tasks_copy
prop('C12', named(r'copies.*', r'equality.*'), GROUP, tasks_copy.ASSUME_NUMERAL)
prop('C13', named(r'OT (points|integers).*'), GROUP, SQRT, ENC)
prop('C14', named(r'DOT .*'), GROUP)
prop('C15', named(r'PUDA (Setup.*|Enc|Agg.*)'), GROUP)
prop('C16', named(r'PUDA (Setup.*|Tag|Agg.*|Verify)'), GROUP)
prop('C17', named(r'Shamir .*'), LAGRANGE)
prop('C18', named(r'Shamir getShares'))
CRC_SIZE = 'integers have fewer than 2^32 - 4 bytes (the length parameter of the checksum routine is an unsigned int)'
prop('C19', named(r'bytes .*'))
prop('C20', named(r'CRC (crc_client::)?(calculate|singletable|multitable)_crc32c'))
prop('C21', named(r'CRC (append|validate)'), CRC_SIZE)
import tasks_aes
prop('C22', named(r'AES (round trip|initial counter|any ciphertext)'), tasks_aes.ASSUME_SIZE)
prop('C23', named(r'AES (en|de)cryptCRC'), tasks_aes.ASSUME_SIZE, 'OpenSSL counter mode is an involution on byte strings of equal length')
import tasks_elgamal
prop('C27', named(r'ElGamal .*'), GROUP, SQRT, tasks_elgamal.ASSUME_EG)
import tasks_opprf
prop('C24', ['OPPRF up to the threshold'], GROUP, SQRT, *tasks_opprf.ASSUME_OP)
prop('C25', ['OPPRF above the threshold'], GROUP, SQRT, *tasks_opprf.ASSUME_OP)
prop('C26', named('OPPRF again .*'), GROUP, SQRT, *tasks_opprf.ASSUME_OP)
