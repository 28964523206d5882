"""Inductive arguments over the history of an object.

generalise(): given the state before and after one operation, replaces everything the operation
changed inside the given root objects by arbitrary values of the same shape (points by arbitrary
points, integers by arbitrary integers of the range shown).  The operation is then verified
again from that general state, and conform() obliges its result to fit the general shape again:
an invariant over any number of operations."""
from tasks import *
from lib import GenVec


def owned(st, roots):
    """ids of the objects reachable from the roots through pointers and containers, except by way of points"""
    seen, todo = set(), [p.obj for p in roots]
    while todo:
        i = todo.pop()
        if i in seen or i not in st.mem:
            continue
        seen.add(i)
        o = st.mem[i]
        for cells in [o.cells] + [sg.cells for sg in o.segs if isinstance(sg, Seg)]:
            skip = {k + 72 for k in cells if pt_at(cells, k) is not None}
            for k, (sz, v) in cells.items():
                if isinstance(v, Ref):
                    todo.append(v.id)
                elif isinstance(v, Ptr) and v.obj is not None and k not in skip:
                    todo.append(v.obj)
    return seen


class Gen:
    def __init__(s, e, what):
        s.e, s.what = e, what
        s.free = {}          # path -> ('pt', ci) | ('z', lo, hi) | ('i', lo, hi)
        s.n = 0
        s.syms = {}          # path -> the arbitrary value
        s.wide = {}          # path -> range to allow in addition
        s.vals = None        # conform(): path -> value found
        s.dry = False        # conform(): collect values and check the shape only

    def sym(s, name, lo=-INF, hi=INF):
        s.n += 1
        return s.e.fresh(s.st, 'any_' + name, lo, hi)

    # ---- pairing of the contents of two objects
    def generalise(s, st0, st1, roots):
        s.st = st = st1.clone()
        s.roots = list(roots)
        s.own = set(owned(st, roots))
        s._foreign = None
        seen = {}
        for i, p in enumerate(roots):
            s._gobj(st0, st, st0.mem.get(p.obj), p.obj, 'r%d' % i, seen)
        s.ref = st.clone()
        s.ref.mem = dict(st.mem)
        return st

    def _gobj(s, st0, st, o0, oid, path, seen):
        if oid in seen or oid not in st.mem:
            return
        seen[oid] = path
        o1 = st.mem[oid]
        if o1.kind == 'vec':
            if o0 is o1 and not any(isinstance(v, (Ref, Ptr)) for sg in o1.segs for sz, v in sg.cells.values()):
                return
            if any(sg.bv is not None for sg in o1.segs):
                raise Unsupported('generalisation of a vector of symbolic length')
            w = st.w(oid)
            for i, sg in enumerate(list(w.segs)):
                old = o0.segs[i].cells if o0 is not None and o0.kind == 'vec' and i < len(o0.segs) and o0.segs[i].bv is None else {}
                cells = dict(sg.cells)
                s._gcells(st0, st, old, cells, '%s[%d]' % (path, i), seen)
                st.w(oid).segs[i] = Seg(sg.start, sg.n, cells)
            return
        if o1.kind != 'cells':
            if o0 is not o1:
                raise Unsupported('generalisation of a buffer')
            return
        cells = dict(o1.cells)
        s._gcells(st0, st, o0.cells if o0 is not None and o0.kind == 'cells' else {}, cells, path, seen)
        st.w(oid).cells = cells

    def _gcells(s, st0, st, old, cells, path, seen):
        done = set()
        for k in sorted(cells):
            if k in done:
                continue
            ci = pt_at(cells, k)
            if ci is not None and k + 72 in cells:
                done |= {k, k + 16, k + 32, k + 48, k + 64, k + 72}
                if all(j in old and same(old[j][1], cells[j][1]) for j in (k, k + 16, k + 32, k + 48, k + 64, k + 72)):
                    continue
                if pt_dlog(cells, k, ci, st.ctx) is not None:
                    d = s.sym('%s+%d' % (path, k), 0, ci.n - 1)
                    cv = cells[k + 72][1]
                    if not isinstance(cv, Ptr) or cv.obj is None:
                        cv = NULL
                    else:
                        if cv.obj not in s.own:
                            cv = Ptr(s.foreign(st, ci))
                        cv = maybe_null(s.e, st, Ptr(cv.obj, cv.off), d)
                    for j, v in pt_cells(ci, d, cv).items():
                        cells[k + j] = v
                    s.free['%s+%d' % (path, k)] = ('pt', ci)
                    continue
                done -= {k, k + 16, k + 32, k + 48, k + 64, k + 72}
            sz, v = cells[k]
            key = '%s+%d' % (path, k)
            if isinstance(v, Ref):
                ov = old.get(k)
                o0 = st0.mem.get(ov[1].id) if ov is not None and isinstance(ov[1], Ref) else None
                s._gobj(st0, st, o0, v.id, key, seen)
                continue
            if isinstance(v, Ptr):
                if v.obj is not None and v.obj in st.mem:
                    s._gobj(st0, st, st0.mem.get(v.obj), v.obj, key, seen)
                continue
            if k in old and old[k][0] == sz and same(old[k][1], v):
                continue
            if isinstance(v, Z):
                lo, hi = s.widen(key, *rng(v.v, st.ctx.rg))
                s.syms[key] = x = s.sym(key, lo, hi)
                cells[k] = (sz, Z(x))
                s.free[key] = ('z', lo, hi)
            elif isinstance(v, Poly):
                lo, hi = rng(v, st.ctx.rg)
                if v.is_const():
                    # a constant stored by the operation: part of the shape unless it was something else before
                    lo = hi = v.const()
                    if k in old and isinstance(old[k][1], Poly) and old[k][1].const() is not None:
                        lo, hi = min(lo, old[k][1].const()), max(hi, old[k][1].const())
                lo, hi = s.widen(key, lo, hi)
                s.syms[key] = x = s.sym(key, lo, hi)
                cells[k] = (sz, x)
                s.free[key] = ('i', lo, hi)
            elif v is UNDEF:
                pass
            else:
                raise Unsupported('generalisation of %r' % (v,))

    def widen(s, key, lo, hi):
        w = s.wide.get(key)
        return (min(lo, w[0]), max(hi, w[1])) if w else (lo, hi)

    def foreign(s, st, ci):
        """a living curve object that does not belong to the objects under consideration"""
        if s._foreign is None:
            s._foreign = put_curve(s.e, st, ci, 'curve object of another party').obj
        return s._foreign

    # ---- after the operation
    def conform(s, st2, dry=False):
        seen = {}
        s.vals, s.dry = {}, dry
        for i, p in enumerate(s.roots):
            s._cobj(st2, s.ref.mem.get(p.obj), p.obj, p.obj, 'r%d' % i, seen)

    def bad(s, st, path, why):
        s.e.oblige(st, FALSE, '%s: state after the operation fits the invariant: %s (%s)' % (s.what, path, why))

    def _cobj(s, st, o0, id0, oid, path, seen):
        if path in seen:
            return
        seen[path] = 1
        if (id0, oid) in seen:
            return
        seen[(id0, oid)] = 1
        o1 = st.mem.get(oid)
        if o1 is None or o0 is None:
            return s.bad(st, path, 'object destroyed')
        if o1.kind != o0.kind:
            return s.bad(st, path, 'kind')
        if o1.kind == 'vec':
            if o1.n != o0.n or len(o1.segs) != len(o0.segs):
                return s.bad(st, path, 'length of a container')
            for i, (a, b) in enumerate(zip(o0.segs, o1.segs)):
                if a.bv is None and b.bv is None:
                    s._ccells(st, a.cells, b.cells, '%s[%d]' % (path, i), seen)
                elif a is not b:
                    s.bad(st, path, 'generic elements')
            return
        if o1.kind == 'cells':
            s._ccells(st, o0.cells, o1.cells, path, seen)
        elif o0 is not o1:
            s.bad(st, path, 'buffer changed')

    def _ccells(s, st, old, cells, path, seen):
        done = set()
        for k in sorted(set(old) | set(cells)):
            if k in done:
                continue
            key = '%s+%d' % (path, k)
            f = s.free.get(key)
            if k not in old or k not in cells:
                s.bad(st, key, 'layout')
                continue
            if f is not None and f[0] == 'pt':
                done |= {k, k + 16, k + 32, k + 48, k + 64, k + 72}
                ci = pt_at(cells, k)
                if ci is not f[1] or pt_dlog(cells, k, ci, st.ctx) is None:
                    s.bad(st, key, 'a point of the curve')
                    continue
                a, b = old[k + 72][1], cells[k + 72][1]
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and (a.obj is None or a.off == b.off):
                    s.e.oblige(st, implies(b.null, or_(a.null, not_(eq(cells[k + 64][1], ZERO)))),
                               '%s: invariant: curve of %s' % (s.what, key))
                elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == s._foreign and a.obj is not None and b.obj is not None:
                    o = st.mem.get(b.obj)
                    if o is None or not CT.curve_ok(s.e, st, Ptr(b.obj, b.off), ci):
                        s.e.oblige(st, or_(b.null, not_(eq(cells[k + 64][1], ZERO))), '%s: invariant: curve of %s' % (s.what, key))
                    else:
                        s.e.oblige(st, implies(b.null, not_(eq(cells[k + 64][1], ZERO))), '%s: invariant: curve of %s' % (s.what, key))
                elif isinstance(b, Ptr) and b.obj is None or isinstance(b, Poly):
                    s.e.oblige(st, not_(eq(cells[k + 64][1], ZERO)), '%s: invariant: curve of %s' % (s.what, key))
                else:
                    s.bad(st, key, 'curve')
                continue
            a, b = old[k], cells[k]
            if a[0] != b[0]:
                s.bad(st, key, 'layout')
            elif isinstance(a[1], Ref) and isinstance(b[1], Ref):
                s._cobj(st, s.ref.mem.get(a[1].id), a[1].id, b[1].id, key, seen)
            elif isinstance(a[1], Ptr) and isinstance(b[1], Ptr):
                if a[1].obj is None or b[1].obj is None:
                    if not (a[1].obj is None and b[1].obj is None):
                        s.bad(st, key, 'pointer')
                elif a[1].obj == b[1].obj:
                    s.e.oblige(st, and_(eq(a[1].off, b[1].off)), '%s: invariant: pointer %s' % (s.what, key))
                    if a[1].obj in s.ref.mem:
                        s._cobj(st, s.ref.mem.get(a[1].obj), a[1].obj, b[1].obj, key, seen)
                else:
                    s._cobj(st, s.ref.mem.get(a[1].obj), a[1].obj, b[1].obj, key, seen)
            elif f is not None:
                v = b[1].v if isinstance(b[1], Z) else b[1]
                if not isinstance(v, Poly):
                    s.bad(st, key, 'value')
                    continue
                s.vals[key] = simp_poly(v, st.ctx)
                if s.dry:
                    continue
                g = and_(le(P(f[1]), v) if f[1] != -INF else TRUE, le(v, P(f[2])) if f[2] != INF else TRUE)
                s.e.oblige(st, g, '%s: invariant: range of %s' % (s.what, key))
            elif a[1] is UNDEF:
                pass
            else:
                cmp_val(s.e, st, b[1], a[1], '%s: invariant: %s unchanged' % (s.what, key))
