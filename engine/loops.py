"""Loops.  A loop whose exits are decided by the path condition is executed.  Otherwise an
inductive invariant is inferred (closed forms of the cells the body changes, as functions of
the iteration number k) and then *checked*: it holds on entry, and one generic iteration
preserves it.  Only the check counts; a wrong guess fails it."""
from terms import *
import terms as T
from symex import *
import symex
import prover as PR
from prover import decide, prove, simp_poly, Ctx
import points as PTS

PLUGINS = []          # extra recurrence solvers: f(engine, leaf, h, expr, solved, k) -> closed form or None
DEBUG = False


class ForAll:
    """for all j with 0 <= j < n: facts(j)"""
    def __init__(s, k, n, facts, e):
        s.k, s.n, s.facts, s.e = k, n, facts, e

    def terms(s, ctx, goal):
        r = [s.n - 1]
        r += [g for g in s.e.ghosts]
        return r

    def inst(s, t, ctx):
        t = P(t)
        b = and_(*[substb(f, {s.k: t}) for f in s.facts])
        r = or_(lt(t, ZERO), le(s.n, t), b)
        return r

    def subst(s, sub):
        return ForAll(s.k, subst(s.n, sub), [substb(f, sub) for f in s.facts], s.e)


def run_loop(e, st, f, regs, H, stops):
    info = cfg(f)
    body = info.loops[H]
    ext = {t for b in body for t in info.succ[b] if t not in body}
    stops2 = frozenset({H} | ext | set(stops))
    snap, snapregs = st.clone(), list(regs)
    st = st.clone()
    mark = len(e.obs)
    exits, fin = [], []
    cur = [(st, regs)]
    und = mixed = 0
    failed = None
    limit = e.unroll
    it = 0
    try:
        while True:
            nxt = []
            left = []
            for s, r in cur:
                stp, fn = e.region(s, f, r, H, None, stops2, H)
                fin += fn
                back = [x for x in stp if x[2] == H]
                out = [x for x in stp if x[2] != H]
                exits += out
                nxt += [(x[0], x[1]) for x in back]
                left += out
                if back and (out or any(k != 'abort' for _, k, _ in fn)):
                    und += 1
            if not nxt:
                return exits, fin
            it += 1
            mixed += bool(left)
            if (mixed > 12 and not e.force_unroll) or und > (limit if e.force_unroll else e.soft) or it > max(limit, 70000) or len(nxt) > 128:
                failed = 'bound'
                break
            cur = nxt
    except Unsupported as ex:
        if 'limit' in str(ex):
            raise
        failed = str(ex)
    if e.force_unroll and failed == 'bound':
        raise Unsupported('loop exceeds the unrolling bound %d' % limit)
    if e.force_unroll:
        raise Unsupported('loop: %s' % failed)
    del e.obs[mark:]
    st, regs = snap, snapregs
    return summarise(e, st, f, regs, H, body, stops2, failed)


# ---------------------------------------------------------------- leaves
# leaf key: (obj, seg index or None, off, kind) kind in 'i' int, 'z' mpz, 'p' pointer offset, 'pt' point
def snapshot(st):
    d = {}
    for oid, o in st.mem.items():
        d[oid] = o
    return d


def celldict(o):
    if o.kind == 'cells':
        return [(None, o.cells)]
    if o.kind == 'vec':
        return [(i, s.cells) for i, s in enumerate(o.segs) if s.bv is None]
    return []


def changed(e, start, back):
    """leaves that differ between two states (over the objects and cells of `start`)"""
    out, vecs, byts = [], [], []
    for oid, o in start.mem.items():
        n = back.mem.get(oid)
        if n is None:
            if o.ty == 'stack':
                continue
            out.append((oid, None, None, 'gone'))
            continue
        if n is o:
            continue
        if o.kind == 'bytes':
            if len(o.segs) != len(n.segs) or any(a.start != b.start or a.n != b.n or a.v != b.v for a, b in zip(o.segs, n.segs)):
                byts.append(oid)
            continue
        if o.kind == 'vec':
            if o.n != n.n or len(o.segs) != len(n.segs):
                vecs.append(oid)
        a, b = dict(celldict(o)), dict(celldict(n))
        for sg, cells in a.items():
            nc = b.get(sg)
            if nc is None:
                continue
            done = set()
            for off, (sz, v) in cells.items():
                if off in done:
                    continue
                w = nc.get(off)
                if w is not None and w[0] == sz and same(v, w[1]):
                    continue
                # part of a point?
                for base in (off, off - 32, off - 64, off - 72):
                    ci = PTS.pt_at(cells, base) if base >= 0 else None
                    if ci is not None and off in (base, base + 32, base + 64, base + 72):
                        if PTS.pt_dlog(cells, base, ci) is not None and PTS.pt_at(nc, base) is ci:
                            out.append((oid, sg, base, 'pt'))
                            done |= {base, base + 32, base + 64, base + 72}
                            break
                else:
                    if w is None or w[0] != sz:
                        out.append((oid, sg, off, 'drop'))
                    elif isinstance(v, Z):
                        out.append((oid, sg, off, 'z'))
                    elif isinstance(v, Ptr):
                        out.append((oid, sg, off, 'p'))
                    elif isinstance(v, Poly):
                        out.append((oid, sg, off, 'i'))
                    elif isinstance(v, Ref) and isinstance(w[1], Ref):
                        out.append((oid, sg, off, 'ref'))
                    else:
                        out.append((oid, sg, off, 'drop'))
    seen, res = set(), []
    for k in out:
        if k not in seen:
            seen.add(k)
            res.append(k)
    return res, vecs, byts


def cells_for(st, key, write=False):
    o = st.w(key[0]) if write else st.mem[key[0]]
    if key[1] is None:
        return o.cells
    if write:
        s = o.segs[key[1]]
        n = Seg(s.start, s.n, dict(s.cells), s.bv)
        o.segs[key[1]] = n
        return n.cells
    return o.segs[key[1]].cells


def vec_es(st, v):
    """pointers into the storage of a vector are counted in elements"""
    o = st.mem.get(v.obj)
    return o.es if o is not None and o.kind == 'vec' and o.es else None


def unscale(p, es):
    if any(c % es for c in p.m.values()):
        return None
    return Poly({m: c // es for m, c in p.m.items()})


def getleaf(st, key):
    cells = cells_for(st, key)
    if key[3] == 'pt':
        ci = PTS.pt_at(cells, key[2])
        return PTS.pt_dlog(cells, key[2], ci, st.ctx) if ci else None
    c = cells.get(key[2])
    if c is None:
        return None
    v = c[1]
    if key[3] == 'z':
        return v.v if isinstance(v, Z) else None
    if key[3] == 'p':
        if not isinstance(v, Ptr):
            return None
        es = vec_es(st, v)
        return v.off if es is None else unscale(v.off, es)
    return v if isinstance(v, Poly) else None


def covers(st, cur, cv):
    """the curve pointer cv is (null or) the pointer cur, or one of those the view cur stands for"""
    if cv.obj is None:
        return True
    if cur is None:
        return False
    if cv.obj == cur.obj:
        return cv.off == cur.off
    o, x = st.mem.get(cur.obj), st.mem.get(cv.obj)
    return o is not None and bool(o.al) and x is not None and (x.al or {cv.obj}) <= o.al


def setleaf(e, st, key, val, curve=None):
    cells = cells_for(st, key, True)
    off = key[2]
    if key[3] == 'pt':
        ci = PTS.pt_at(cells, off)
        for k, v in PTS.pt_cells(ci, val, PTS.maybe_null(e, st, curve, Mod(P(val), ci.n)) if curve is not None else NULL).items():
            cells[off + k] = v
    elif key[3] == 'z':
        cells[off] = (16, Z(val))
    elif key[3] == 'p':
        sz, v = cells[off]
        es = vec_es(st, v)
        cells[off] = (sz, Ptr(v.obj, P(val) if es is None else P(val).scale(es), v.null))
    elif key[3] == 'i':
        cells[off] = (cells[off][0], val)
    elif key[3] in ('drop', 'ref'):
        cells.pop(off, None)


def one_iter(e, st, f, regs, H, stops2):
    """one iteration from the loop head -> (merged back state or None, exits, fin)"""
    base = st.ctx
    e.merge_all += 1
    try:
        stp, fin = e.region(st, f, list(regs), H, None, stops2, H)
    finally:
        e.merge_all -= 1
    back = [x for x in stp if x[2] == H]
    out = [x for x in stp if x[2] != H]
    while len(back) > 1:
        a = back.pop()
        b = back[-1]
        c = and_(*[x for x in a[0].ctx.facts if x.id not in base.ids])
        m = e.merge(base, c, a, b)
        if m is None:
            raise Unsupported('loop body paths cannot be merged')
        back[-1] = (m[0], m[1], H, None)
    return (back[0] if back else None), out, fin


def summarise(e, st0, f, regs0, H, body, stops2, why, peeled=0):
    st0.cnt += 1
    tag = '%sL%d.%d' % (st0.scope, H, st0.cnt)
    kat = S('k:' + tag, 0, INF).atom()
    k = kat.poly
    outer = (st0.iters, st0.scope, st0.cnt)

    def start():
        s = st0.clone()
        s.iters = outer[0] + (k,)
        s.scope = tag + '/'
        s.cnt = 0
        s.assume(le(ZERO, k))
        s.log = ()
        return s
    # ---- inference (trial runs: obligations are not recorded)
    e.quiet += 1
    try:
        leaves, vecs, closed = infer(e, st0, f, regs0, H, stops2, start, k, kat, tag)
        if closed is None and leaves == 'peel':
            if peeled >= 2:
                raise Unsupported('no loop invariant found')
            peel = True
        else:
            peel = False
            # ranges: what the loop condition says about k
            invs, guessed = range_invs(e, st0, f, regs0, H, stops2, start, leaves, vecs, closed, k, kat)
            if guessed and not any(a is not kat and kat in fv(a) and a.kind in ('b', 'mod') for i in invs for a in fvb(i)):
                # once more, with what is known about k
                def start2():
                    s = start()
                    s.assume(*invs)
                    return s
                try:
                    again = infer(e, st0, f, regs0, H, stops2, start2, k, kat, tag, True)
                except Unsupported as ex:
                    again = None
                if again is not None and again[1] is not None:
                    i2, _ = range_invs(e, st0, f, regs0, H, stops2, start, *again, k, kat)
                    (leaves, vecs, closed), invs = again, i2
    finally:
        e.quiet -= 1
    if peel:
        s = st0.clone()
        back, out, fin = one_iter(e, s, f, regs0, H, stops2)
        if back is None:
            return out, fin
        ex2, fin2 = summarise(e, back[0], f, back[1], H, body, stops2, why, peeled + 1)
        return out + ex2, fin + fin2
    # ---- check: entry
    for key in leaves:
        c0 = subst(closed[key][0], {kat: ZERO}) if key[3] not in ('drop', 'ref', 'gone') else None
        if c0 is None:
            continue
        ent = getleaf(st0, key)
        if key[3] == 'pt':
            ci = PTS.pt_at(cells_for(st0, key), key[2])
            e.oblige(st0, eq(Mod(c0, ci.n), Mod(ent, ci.n)), 'loop invariant holds on entry')
            cv = cells_for(st0, key)[key[2] + 72][1]
            cv, cur = NULL if isinstance(cv, Poly) else cv, closed[key][1]
            if not covers(st0, cur, cv):
                e.fail(st0, 'loop invariant holds on entry (curve pointer)')
            e.oblige(st0, or_(not_(cv.null), eq(Mod(ent, ci.n), ZERO)), 'loop invariant holds on entry (curve pointer)')
        else:
            e.oblige(st0, eq(c0, ent), 'loop invariant holds on entry')
    # ---- check: preservation
    s = start()
    s.assume(*invs)
    put(e, s, leaves, vecs, closed, k, kat)
    base = s.ctx
    ref = s.clone()
    back, out, fin = one_iter(e, s, f, regs0, H, stops2)
    res_exits, res_fin = [], []
    contfacts = []
    if back is not None:
        b = back[0]
        contfacts = [x for x in b.ctx.facts if x.id not in base.ids and kat in fvb(x)]
        check_preserved(e, b, ref, leaves, vecs, closed, k, kat)
    if not e.quiet:
        e.invariants.append('%s: %s' % (e.where(), '; '.join('%s=%s' % (kk[3], show(closed[kk][0])[:80]) for kk in leaves if closed.get(kk) and closed[kk][0] is not None)[:300]))
    fa = ForAll(kat, k, contfacts, e)
    fa.log = back[0].log if back is not None else ()
    for (x, r, bb, pv) in out:
        finish(e, x, outer, kat, k, base, fa, st0)
        sub = solve_k(e, x, kat, base)
        if sub:
            apply_state(e, x, sub)
            r = [e.subst_val(v, sub) if isinstance(v, (Poly, Bool, Ptr)) else v for v in r]
        res_exits.append((x, r, bb, pv))
    for (x, kind, v) in fin:
        finish(e, x, outer, kat, k, base, fa, st0)
        sub = solve_k(e, x, kat, base)
        if sub:
            apply_state(e, x, sub)
            v = e.subst_val(v, sub) if isinstance(v, (Poly, Bool, Ptr)) else v
        res_fin.append((x, kind, v))
    return res_exits, res_fin


def finish(e, x, outer, kat, k, base, fa, st0):
    x.iters, x.scope = outer[0], outer[1]
    x.cnt = outer[2]
    if fa.facts:
        x.foralls = x.foralls + (fa,)
    x.log = st0.log + ((('each', kat, k, fa.log),) if fa.log else ()) + x.log


def apply_state(e, st, sub):
    kat = next(iter(sub))
    mem = {}
    for oid, o in st.mem.items():
        n = o
        if o.kind == 'cells':
            if any(touch(v, kat) for sz, v in o.cells.values()):
                n = o.copy()
                n.cells = e.subst_cells(o.cells, sub)
        elif o.kind == 'vec':
            n = o.copy()
            n.n = subst(o.n, sub)
            n.segs = [Seg(subst(g.start, sub), subst(g.n, sub), e.subst_cells(g.cells, sub), g.bv) for g in o.segs]
            n.segs = [g for g in n.segs if g.n.const() != 0]
        else:
            n = o.copy()
            n.n = subst(o.n, sub)
            if isinstance(o.size, Poly):
                n.size = subst(o.size, sub)
            n.segs = [BSeg(subst(g.start, sub), subst(g.n, sub), None if g.v is None else subst(g.v, sub), g.kind) for g in o.segs]
            n.segs = [g for g in n.segs if g.n.const() != 0]
        mem[oid] = n
    st.mem = mem
    st.tok = object()
    ctx = Ctx()
    for fct in st.ctx.facts:
        ctx = ctx.add(substb(fct, sub))
    st.ctx = ctx
    st.foralls = tuple(fa.subst(sub) if fa.k is not kat else ForAll(fa.k, subst(fa.n, sub), fa.facts, fa.e) for fa in st.foralls)

    def ls(t):
        if t[0] == 'each':
            return ('each', t[1], subst(t[2], sub), t[3])
        return tuple(subst(v, sub) if isinstance(v, Poly) else v for v in t)
    st.log = tuple(ls(t) for t in st.log)


def touch(v, kat):
    if isinstance(v, Poly):
        return kat in fvp(v)
    if isinstance(v, Z):
        return kat in fvp(v.v)
    if isinstance(v, Ptr):
        return kat in fvp(v.off) or kat in fvb(v.null)
    return isinstance(v, GenVec)


def solve_k(e, x, kat, base):
    cands = []
    for fct in x.ctx.facts:
        if fct.k in ('le', 'eq'):
            p = fct.a[0]
            c = p.m.get((kat,))
            if c in (1, -1):
                rest = Poly({m: v for m, v in p.m.items() if m != (kat,)})
                if kat in fvp(rest):
                    continue
                r = (-rest if c == 1 else rest)
                cands.append((0 if fct.k == 'eq' else 1, r))
    cands.sort(key=lambda t: t[0])
    seen = set()
    for pr, r in cands:
        for d in ((0,) if pr == 0 else (0, 1, -1)):
            t = r + d
            if t in seen:
                continue
            seen.add(t)
            if decide(le(kat.poly, t), x.ctx) is True and decide(le(t, kat.poly), x.ctx) is True \
                    or prove(eq(kat.poly, t), x.ctx, use_z3=False):
                return {kat: t}
    return None


def put(e, s, leaves, vecs, closed, k, kat):
    for key in leaves:
        if key[3] == 'gone':
            s.mem.pop(key[0], None)
            continue
        v, curve = closed[key] if key in closed else (None, None)
        setleaf(e, s, key, v, curve)
    for oid in vecs:
        o = s.w(oid)
        n0, cells, ent = vecs[oid]
        bv = T.bvar(bvdepth(cells))
        if ent is not None:
            # elements n0 .. n0+k-1 have been overwritten
            j, g = ent, o.segs[ent]
            d = simp_poly(n0 - g.start, s.ctx)
            new = [] if d.const() == 0 else [Seg(g.start, d, g.cells, g.bv)]
            new.append(Seg(n0, k, e.subst_cells(cells, {kat: bv.poly}), bv))
            new.append(Seg(n0 + k, g.n - d - k, e.subst_cells(g.cells, {g.bv: g.bv.poly + d + k}), g.bv))
            o.segs = list(o.segs[:j]) + new + list(o.segs[j + 1:])
            continue
        if cells is None:
            o.segs = list(o.segs) + [Seg(n0, k, {}, T.bvar(0))]
        else:
            o.segs = list(o.segs) + [Seg(n0, k, e.subst_cells(cells, {kat: bv.poly}), bv)]
        o.n = n0 + k


def bvdepth(cells):
    d = 0
    for sz, v in (cells or {}).values():
        if isinstance(v, Poly):
            d = max(d, T._maxbv(v))
        elif isinstance(v, Z):
            d = max(d, T._maxbv(v.v))
    return d


def check_preserved(e, b, ref, leaves, vecs, closed, k, kat):
    k1 = {kat: k + 1}
    for key in leaves:
        if key[3] in ('drop', 'ref', 'gone'):
            continue
        want = subst(closed[key][0], k1)
        got = getleaf(b, key)
        if got is None:
            e.fail(b, 'loop invariant preserved', 'leaf lost %s' % (key,))
        if key[3] == 'pt':
            cells = cells_for(b, key)
            ci = PTS.pt_at(cells, key[2])
            e.oblige(b, eq(Mod(got, ci.n), Mod(want, ci.n)), 'loop invariant preserved (point)')
            cv = cells[key[2] + 72][1]
            if isinstance(cv, Poly):
                cv = NULL
            cur = closed[key][1]
            if not covers(b, cur, cv):
                e.fail(b, 'loop invariant preserved (curve pointer)')
            e.oblige(b, or_(not_(cv.null), eq(Mod(got, ci.n), ZERO)), 'loop invariant preserved (curve pointer)')
        else:
            if key[3] == 'p':
                a, c = cells_for(b, key)[key[2]][1], cells_for(ref, key)[key[2]][1]
                if a.obj != c.obj:
                    e.fail(b, 'loop invariant preserved (pointer)')
            e.oblige(b, eq(got, want), 'loop invariant preserved (%s)' % key[3])
    # nothing else changed
    lv, vc, by = changed(e, ref, b)
    extra = [x for x in lv if x not in leaves and x[3] not in ('drop',) and not (x[0] in vecs and vecs[x[0]][2] is not None)]
    for x in extra:
        if x[3] in ('i', 'z', 'p'):
            e.oblige(b, eq(getleaf(b, x), getleaf(ref, x)), 'loop frame')
        else:
            e.fail(b, 'loop frame', str(x))
    if by:
        e.fail(b, 'loop frame (bytes)', str(by))
    for oid in vc:
        if oid not in vecs:
            e.fail(b, 'loop frame (vector)')
    for oid, (n0, cells, ent) in vecs.items():
        o = b.mem[oid]
        r = ref.mem[oid]
        if ent is None:
            e.oblige(b, eq(o.n, n0 + k + 1), 'loop invariant preserved (vector length)')
            if len(o.segs) != len(r.segs) + 1:
                e.fail(b, 'loop invariant preserved (vector contents)')
            new = o.segs[-1].cells
        else:
            e.oblige(b, eq(o.n, r.n), 'loop invariant preserved (vector length)')
            # the part that is left has lost its first element, everything else is as it was
            j = next((i for i, (x, y) in enumerate(zip(o.segs, r.segs)) if not same_seg(x, y)), None)
            if DEBUG:
                for g in list(o.segs) + [None] + list(r.segs):
                    print('SEG', g and (show(g.start), show(g.n), g.bv, g.cells.keys(), id(g)))
            if j is None or o.segs[j].bv is not None or r.segs[j].bv is None:
                e.fail(b, 'loop invariant preserved (vector contents)')
            rest = o.segs[j + 1:]
            more = 1 if len(rest) == len(r.segs) - j else 0
            if more and not same_rest(e, b, rest[0], r.segs[j]) or len(rest) != len(r.segs) - j - 1 + more or any(not same_seg(x, y) for x, y in zip(rest[more:], r.segs[j + 1:])):
                e.fail(b, 'loop invariant preserved (vector contents)')
            e.oblige(b, and_(eq(o.segs[j].start, n0 + k), eq(r.segs[j].start, n0 + k)), 'loop invariant preserved (vector index)')
            if not more:
                e.oblige(b, eq(r.segs[j].n, ONE), 'loop invariant preserved (vector contents)')
            new = o.segs[j].cells
        for off, (sz, v) in cells.items():
            w = new.get(off)
            if w is None or w[0] != sz or not same(v, w[1]):
                if w is not None and isinstance(v, Z) and isinstance(w[1], Z):
                    e.oblige(b, eq(v.v, w[1].v), 'loop invariant preserved (vector element)')
                elif w is not None and isinstance(v, Poly) and isinstance(w[1], Poly):
                    e.oblige(b, eq(v, w[1]), 'loop invariant preserved (vector element)')
                elif isinstance(v, Ptr) and w is not None and isinstance(w[1], Ptr) and v.obj == w[1].obj and v.off == w[1].off:
                    pass
                else:
                    e.fail(b, 'loop invariant preserved (vector element)')


def same_seg(a, b):
    return a is b or a.bv is b.bv and a.start == b.start and a.n == b.n and a.cells.keys() == b.cells.keys() and \
        all(sz == b.cells[i][0] and same(v, b.cells[i][1]) for i, (sz, v) in a.cells.items())


def same_rest(e, st, a, g):
    """a is the segment g without its first element"""
    if a.bv is not g.bv or a.cells.keys() != g.cells.keys():
        return False
    if decide(eq(a.start, g.start + 1), st.ctx) is not True or decide(eq(a.n, g.n - 1), st.ctx) is not True:
        return False
    w = e.subst_cells(g.cells, {g.bv: g.bv.poly + 1})
    return all(same(a.cells[i][1], v) and a.cells[i][0] == sz for i, (sz, v) in w.items())


def infer(e, st0, f, regs0, H, stops2, start, k, kat, tag, simp=False):
    leaves, vecs, inpl = [], {}, set()
    hav, words = {}, set()
    curves = {}
    gen = None
    for rnd in range(8):
        s = start()
        for key in leaves:
            if key[3] == 'gone':
                s.mem.pop(key[0], None)
            elif key[3] in ('drop', 'ref'):
                setleaf(e, s, key, None)
            else:
                setleaf(e, s, key, hav[key], curves.get(key))
        for oid in vecs:
            if oid in inpl:
                continue
            o = s.w(oid)
            n0 = st0.mem[oid].n
            o.segs = list(o.segs) + [Seg(n0, k, {}, T.bvar(0))]
            o.n = n0 + k
        ref = s.clone()
        e.weak, old = e.weak | inpl, e.weak
        try:
            back, out, fin = one_iter(e, s, f, regs0, H, stops2)
        finally:
            e.weak = old
        if back is None:
            if rnd == 0:
                raise Unsupported('loop body never continues')
            break
        lv, vc, by = changed(e, ref, back[0])
        for oid in vc:
            if back[0].mem[oid].n == ref.mem[oid].n:
                inpl.add(oid)
        lv = [x for x in lv if x[0] not in inpl]
        if by:
            raise Unsupported('byte buffer modified in a loop')
        new = False
        for key in lv:
            if key[3] == 'pt':
                cv = cells_for(back[0], key)[key[2] + 72][1]
                if isinstance(cv, Ptr) and cv.obj is not None:
                    if key not in curves:
                        c0 = cells_for(st0, key)[key[2] + 72][1]
                        if isinstance(c0, Ptr) and c0.obj is not None:
                            cv = c0
                        curves[key] = Ptr(cv.obj, cv.off)
                        new = True
                    o = back[0].mem.get(cv.obj)
                    if o is not None and o.al and curves[key].obj != cv.obj and covers(back[0], cv, curves[key]):
                        # one of several curve objects: the view of all of them exists before the loop too
                        if all(x in st0.mem for x in o.al):
                            st0.mem.setdefault(cv.obj, o)
                            curves[key] = Ptr(cv.obj, cv.off)
                            new = True
            if key not in leaves:
                leaves.append(key)
                new = True
                nm = 'h:%s:%d' % (tag, len(leaves))
                if key[3] == 'pt':
                    ci = PTS.pt_at(cells_for(ref, key), key[2])
                    hav[key] = S(nm, 0, ci.n - 1)
                elif key[3] == 'z':
                    v0 = getleaf(st0, key)
                    hav[key] = S(nm, *zrange(v0, getleaf(back[0], key)))
                elif key[3] == 'p':
                    hav[key] = S(nm)
                elif key[3] == 'i':
                    sz = cells_for(ref, key)[key[2]][0]
                    w = 8 * sz
                    hav[key] = S(nm, -(1 << (w - 1)), (1 << w) - 1) if sz > 1 else S(nm, 0, 255)
        for oid in vc:
            if oid not in vecs:
                vecs[oid] = None
                new = True
        gen = (ref, back[0])
        if not new:
            # a register treated bit by bit is an unsigned word
            for key in leaves:
                if key[3] == 'i' and key not in words:
                    v0, x = getleaf(st0, key), getleaf(back[0], key)
                    if v0 is not None and x is not None and rng(v0)[0] >= 0 and any(a.kind == 'bits' for a in x.atoms()) and hav[key].atom() in fvp(x):
                        words.add(key)
                        hav[key] = S('w' + str(hav[key].atom().args[0])[1:], 0, (1 << 8 * cells_for(ref, key)[key[2]][0]) - 1)
                        new = True
        if not new:
            break
    else:
        raise Unsupported('loop havoc does not stabilise')
    ref, back = gen
    # ---- solve the recurrences
    closed, todo = {}, {}
    hs = {}
    for key in leaves:
        if key[3] in ('drop', 'ref', 'gone'):
            continue
        h = hav[key].atom()
        hs[h] = key
        x = getleaf(back, key)
        if x is None:
            raise Unsupported('loop leaf %s lost its form' % (key,))
        todo[key] = (h, x)
    sol = {}
    peel = False
    progress = True
    deferred = {}
    while todo and progress:
        progress = False
        for key, (h, x) in list(todo.items()):
            if any(a.kind == 'b' for a in x.atoms()):
                x = simp_poly(x, back.ctx)      # what is known when the body has run to its end
            x2 = subst(x, sol) if sol else x
            if simp and sol:
                x2 = simp_poly(x2, ctx_with(e, back.ctx, sol))
            oth = {a for a in fvp(x2) if a in hs and a is not h}
            entry = getleaf(st0, key)
            m = PTS.pt_at(cells_for(st0, key), key[2]).n if key[3] == 'pt' else None
            w = 8 * cells_for(ref, key)[key[2]][0] if key[3] == 'i' else None
            c = None
            if not oth:
                c = solve(e, h, x2, entry, k, kat, m, w, st0)
            if c is None:
                for pl in PLUGINS:
                    c = pl(e, st0, ref, back, key, h, x2, entry, k, kat, sol)
                    if c is not None:
                        break
            if c is not None:
                if c == 'last':
                    c = subst(x2, {kat: k - 1})
                    # valid only if the formula at k=0 gives the entry value
                    z = subst(c, {kat: ZERO})
                    if not prove(eq(Mod(z, m), Mod(entry, m)) if m else eq(z, entry), st0.ctx, use_z3=False):
                        peel = True
                del todo[key]
                sol[h] = c
                closed[key] = (c, curves.get(key))
                progress = True
    if todo:
        if DEBUG:
            for key, (h, x) in todo.items():
                print('UNSOLVED', key, show_atom(h), '->', show(subst(x, sol))[:400])
        raise Unsupported('no loop invariant found for %s' % [str(kk) for kk in todo][:4])
    if peel:
        return 'peel', None, None
    for oid in vecs:
        o, r = back.mem[oid], ref.mem[oid]
        if oid in inpl:
            vecs[oid] = overwritten(e, st0, back, o, r, sol, k, kat, hs)
            continue
        if len(o.segs) != len(r.segs) + 1 or o.n != r.n + 1 or o.segs[-1].bv is not None:
            raise Unsupported('vector grown irregularly in a loop')
        cells = e.subst_cells(o.segs[-1].cells, sol)
        if any(isinstance(v, (Ref, GenVec)) for sz, v in cells.values()):
            raise Unsupported('vector of containers grown in a loop')
        vecs[oid] = (st0.mem[oid].n, cells, None)
    return leaves, vecs, closed


def overwritten(e, st0, back, o, r, sol, k, kat, hs):
    """a vector whose elements are overwritten one after the other -> (first index, contents at iteration k, index of the segment)"""
    new = [x for x in o.segs if x.bv is None and not any(x is y for y in r.segs)]
    if len(new) != 1:
        raise Unsupported('vector modified irregularly in a loop')
    idx = simp_poly(subst(new[0].start, sol), ctx_with(e, back.ctx, sol))
    i0 = idx - k
    if kat in fvp(i0) or any(a in fvp(i0) for a in hs):
        raise Unsupported('vector modified at irregular indices in a loop')
    cells = e.subst_cells(new[0].cells, sol)
    if any(isinstance(v, (Ref, GenVec)) for sz, v in cells.values()):
        raise Unsupported('vector of containers modified in a loop')
    for j, g in enumerate(r.segs):
        if g.bv is not None and decide(and_(le(g.start, i0), le(i0, g.start + g.n)), st0.ctx) is True and (decide(eq(i0, g.start), st0.ctx) is True or decide(lt(i0, g.start + g.n), st0.ctx) is True):
            return i0, cells, j
    raise Unsupported('vector modified in a loop')


def ctx_with(e, ctx, sol):
    c = Ctx()
    for fct in ctx.facts:
        c = c.add(substb(fct, sol))
    return c


def zrange(v0, v1):
    r0, r1 = rng(v0), rng(v1)
    return (0 if r0[0] >= 0 and r1[0] >= 0 else -INF), INF


def solve(e, h, x, entry, k, kat, m, w, st0):
    """closed form of h_k with h_0 = entry, h_{k+1} = x(h_k, k)"""
    hp = h.poly
    if h not in fvp(x):
        return 'last'
    d = x - hp
    if h not in fvp(d):
        c = entry + Sum(d, k, kat)
        return Mod(c, m) if m else c
    a = x.atom()
    if a is not None and a.kind == 'mod' and isinstance(a.args[1], int):
        q, mm = a.args
        d = q - hp
        if h not in fvp(d):
            if w and mm == 1 << w and kat not in fvp(d):
                d = Poly({mo: c - mm if c >= mm >> 1 else c for mo, c in d.m.items()})
                return entry + Sum(d, k, kat)
            c = entry + Sum(d, k, kat)
            return Mod(c, mm)
        # all monomials contain h exactly once
        if all(mo.count(h) == 1 for mo in q.m):
            r = Poly({tuple(y for y in mo if y is not h): c for mo, c in q.m.items()})
            if h not in fvp(r):
                return Mod(entry * Prod(r, k, kat), mm)
        # affine with constant factor: h*r + b
        lin = Poly({tuple(y for y in mo if y is not h): c for mo, c in q.m.items() if mo.count(h) == 1})
        rest = Poly({mo: c for mo, c in q.m.items() if mo.count(h) == 0})
        if lin + ZERO is not None and all(mo.count(h) <= 1 for mo in q.m) and h not in fvp(lin) and h not in fvp(rest) and kat not in fvp(lin):
            # h_k = entry*r^k + sum_{j<k} b_j r^(k-1-j)
            j = S('j:tmp', 0, INF).atom()
            body = subst(rest, {kat: j.poly}) * T.gpow(lin, k - 1 - j.poly)
            return Mod(entry * T.gpow(lin, k) + Sum(body, k, j), mm)
    if all(mo.count(h) == 1 for mo in x.m):
        r = Poly({tuple(y for y in mo if y is not h): c for mo, c in x.m.items()})
        if h not in fvp(r):
            return entry * Prod(r, k, kat)
    # x = ite(c, x1, x0)
    for z in [z for z in x.atoms() if z.kind == 'b' and h not in fv(z)]:
        arms = [subst(x, {z: v}) for v in (ONE, ZERO)]
        mods = {q.atom().args[1] for q in arms if q.atom() is not None and q.atom().kind == 'mod'}
        if len(mods) == 1 and all(q == hp or q.atom() is not None and q.atom().kind == 'mod' for q in arms):
            q1, q0 = (q.atom().args[0] if q.atom().kind == 'mod' else q for q in arms)
            mm = mods.pop()
            y = z.poly * q1 + (ONE - z.poly) * q0
            c = solve(e, h, T._mk('mod', (T.mod_strip(y, mm), mm), 0, mm - 1).poly, entry, k, kat, m, w, st0)
            if c is not None:
                return c
    if w:
        # guess that the machine integer does not wrap (the guess is checked)
        y = Poly({mo: c for mo, c in x.m.items() if not (c % (1 << w) == 0 and any(z.kind == 'b' for z in mo))})
        if y != x:
            y = Poly({mo: c - (1 << w) if not mo and c >= 1 << (w - 1) else c for mo, c in y.m.items()})
            return solve(e, h, y, entry, k, kat, m, w, st0)
    return None


def range_invs(e, st0, f, regs0, H, stops2, start, leaves, vecs, closed, k, kat):
    """facts about k that hold at the head of every iteration, by induction from the
    conditions under which the body continues"""
    invs = []
    guess = []
    for rnd in range(2):
        s = start()
        s.assume(*invs)
        put(e, s, leaves, vecs, closed, k, kat)
        base = s.ctx
        back, out, fin = one_iter(e, s, f, regs0, H, stops2)
        if back is None:
            break
        new = []
        for fct in back[0].ctx.facts:
            if fct.id in base.ids or kat not in fvb(fct):
                continue
            if rnd == 0:
                guess += unwrapped(fct, k, kat, st0)
            if fct.k == 'le':
                p = fct.a[0]
                c = p.m.get((kat,))
                if c is None or any(kat in mo and mo != (kat,) for mo in p.m) or any(kat in fv(a) for mo in p.m for a in mo if a is not kat):
                    continue
                q = subst(p, {kat: k - 1})
                if prove(le(subst(p, {kat: P(-1)}), ZERO), st0.ctx):
                    new.append(le(q, ZERO))
            elif fct.k == 'not' and fct.a[0].k == 'eq':
                p = fct.a[0].a[0]
                c = p.m.get((kat,))
                if c not in (1, -1):
                    continue
                rest = Poly({m: v for m, v in p.m.items() if m != (kat,)})
                if kat in fvp(rest):
                    continue
                M = -rest if c == 1 else rest
                if prove(le(ZERO, M), st0.ctx):
                    new.append(le(k, M))
        if DEBUG:
            print('range', [T.show_bool(f) for f in back[0].ctx.facts if f.id not in base.ids], [T.show_bool(f) for f in new])
        new = [b for b in new if b is not TRUE and b not in invs]
        if not new:
            break
        invs += new
    # guesses (a counter that does not wrap), kept if they are inductive
    guess = [b for b in dict.fromkeys(guess) if b is not TRUE and b not in invs]
    while guess:
        s = start()
        s.assume(*invs)
        s.assume(*guess)
        put(e, s, leaves, vecs, closed, k, kat)
        back, out, fin = one_iter(e, s, f, regs0, H, stops2)
        ok = [g for g in guess if back is None or prove(substb(g, {kat: k + 1}), back[0].ctx)]
        if len(ok) == len(guess):
            return invs + guess, True
        guess = ok
    return invs, False


def unwrapped(fct, k, kat, st0):
    """bounds on k that the condition of a loop gives if the machine integers in it do not wrap"""
    neg = fct.k == 'not' and fct.a[0].k == 'eq'
    p = fct.a[0].a[0] if neg else fct.a[0] if fct.k == 'le' else None
    if p is None:
        return []
    for a in p.atoms():
        if kat not in fv(a) or a is kat:
            continue
        if a.kind == 'b' and p.m.get((a,), 0) % (1 << 8) == 0:
            p = subst(p, {a: ZERO})
        elif a.kind == 'mod' and isinstance(a.args[1], int) and a.args[1] & (a.args[1] - 1) == 0 and (a,) in p.m:
            h = a.args[1] >> 1
            q = Poly({m: (c + h) % a.args[1] - h for m, c in P(a.args[0]).m.items()})
            p = subst(p, {a: q})
        else:
            return []
    c = p.m.get((kat,))
    if c not in (1, -1) or any(kat in mo and mo != (kat,) for mo in p.m):
        return []
    rest = Poly({m: v for m, v in p.m.items() if m != (kat,)})
    if kat in fvp(rest):
        return []
    if neg:
        g, g0 = (le(k, -rest), le(ZERO, -rest)) if c == 1 else (le(k, rest), le(ZERO, rest))
    else:
        g, g0 = le(subst(p, {kat: k - 1}), ZERO), le(subst(p, {kat: P(-1)}), ZERO)
    return [g] if prove(g0, st0.ctx) else []
