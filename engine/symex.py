"""Verification-condition generator: forward symbolic execution of LLVM IR (compiled
from /repo's current sources on every run), function by function.  A call to a function
that has a contract is replaced by that contract; loops are replaced by an inferred and
then *checked* inductive invariant (loops.py) or, where the trip count is decided by the
path condition, executed completely.  Every obligation goes to prover.prove.

Machine integers: a value of width w is held as a Poly in [-2^(w-1), 2^w) and stands for
its residue mod 2^w; `U` and `SG` convert to the unsigned / signed representative."""
import re
import sys
import time

from terms import *
import terms as T
import prover as PR
from prover import Ctx, decide, feasible, prove, simp_poly, simp_bool
import llvmc

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(s, cond):
        s.cond = cond


class BadPath(Exception):
    """the obligation that stops this path has been recorded"""


class Ptr:
    __slots__ = ('obj', 'off', 'null')

    def __init__(s, obj, off=ZERO, null=FALSE):
        s.obj, s.off, s.null = obj, P(off), null

    def __repr__(s):
        return 'Ptr(%s+%s%s)' % (s.obj, s.off.const() if s.off.is_const() else '?', '' if s.null is FALSE else ' null?')

    def same(s, o):
        return isinstance(o, Ptr) and s.obj == o.obj and s.off == o.off and s.null is o.null


NULL = Ptr(None, ZERO, TRUE)


class FPtr:
    __slots__ = ('name',)

    def __init__(s, n):
        s.name = n

    def same(s, o):
        return isinstance(o, FPtr) and s.name == o.name


class Z:
    """contents of an mpz_t: an integer"""
    __slots__ = ('v',)

    def __init__(s, v):
        s.v = P(v)

    def same(s, o):
        return isinstance(o, Z) and s.v == o.v


class Ref:
    """contents of a std::vector / std::string header: id of its storage object"""
    __slots__ = ('id', 'kind')

    def __init__(s, id, kind):
        s.id, s.kind = id, kind

    def same(s, o):
        return isinstance(o, Ref) and s.id == o.id


class GenVec:
    """contents of a std::vector inside a generic element: a description, materialised on use"""
    __slots__ = ('n', 'es', 'elems', 'ty')

    def __init__(s, n, es, elems, ty):
        s.n, s.es, s.elems, s.ty = n, es, elems, ty


class Undef:
    __slots__ = ()

    def same(s, o):
        return o is s


UNDEF = Undef()


def same(a, b):
    if isinstance(a, Poly):
        return isinstance(b, Poly) and a == b
    if isinstance(a, Bool):
        return a is b
    if a is None or b is None:
        return a is b
    return type(a) is type(b) and a.same(b)


class Seg:
    """elements [start, start+n) of a vector storage.  bv None: one element (n == 1)"""
    __slots__ = ('start', 'n', 'cells', 'bv')

    def __init__(s, start, n, cells, bv=None):
        s.start, s.n, s.cells, s.bv = P(start), P(n), cells, bv


class BSeg:
    """bytes [start, start+n) holding the n-byte big-endian integer v (or None: undefined)"""
    __slots__ = ('start', 'n', 'v', 'kind')

    def __init__(s, start, n, v, kind='be'):
        s.start, s.n, s.v, s.kind = P(start), P(n), v, kind


class Obj:
    __slots__ = ('id', 'kind', 'size', 'cells', 'segs', 'n', 'es', 'tok', 'name', 'ro', 'table', 'ty', 'heap', 'al')

    def __init__(s, id, kind, size, name=''):
        s.id, s.kind, s.size, s.name = id, kind, size, name
        s.cells = {}
        s.segs = []
        s.n = ZERO
        s.es = 0
        s.tok = None
        s.ro = False
        s.table = None
        s.ty = None
        s.heap = False
        s.al = None

    def copy(s):
        o = Obj(s.id, s.kind, s.size, s.name)
        o.cells = dict(s.cells)
        o.segs = list(s.segs)
        o.n, o.es, o.ro, o.table, o.ty, o.heap, o.al = s.n, s.es, s.ro, s.table, s.ty, s.heap, s.al
        return o


class State:
    __slots__ = ('ctx', 'mem', 'tok', 'iters', 'foralls', 'scope', 'cnt', 'log', 'globs')

    def __init__(s):
        s.ctx, s.mem, s.tok, s.iters, s.foralls = Ctx(), {}, object(), (), ()
        s.scope, s.cnt, s.log, s.globs = '', 0, (), {}

    def clone(s):
        n = State()
        n.ctx, n.mem, n.iters, n.foralls, n.scope, n.cnt, n.log = s.ctx, dict(s.mem), s.iters, s.foralls, s.scope, s.cnt, s.log
        n.globs = s.globs
        s.tok = object()
        return n

    def assume(s, *bs):
        s.ctx = s.ctx.add(*bs)

    def w(s, id):
        o = s.mem[id]
        if o.tok is not s.tok:
            o = o.copy()
            o.tok = s.tok
            s.mem[id] = o
        return o


_objid = [1]


def new_obj(st, kind, size, name=''):
    _objid[0] += 1
    o = Obj(_objid[0], kind, size, name)
    o.tok = st.tok
    st.mem[o.id] = o
    return o


def U(v, w, rg=None):
    """unsigned representative"""
    lo, hi = rng(v, rg)
    if lo >= 0:
        return v
    if hi < 0:
        return v + (1 << w)
    return v + B(lt(v, ZERO, rg)).scale(1 << w)


def SG(v, w, rg=None):
    lo, hi = rng(v, rg)
    h = 1 << (w - 1)
    if hi < h:
        return v
    if lo >= h:
        return v - (1 << w)
    return v - B(le(P(h), v, rg)).scale(1 << w)


class Ob:
    __slots__ = ('name', 'ok', 'how', 'goal', 'ctx', 'note', 'task', 'foralls')

    def __init__(s, name, ok, how, goal=None, ctx=None, note='', foralls=()):
        s.name, s.ok, s.how, s.goal, s.ctx, s.note, s.foralls = name, ok, how, goal, ctx, note, foralls
        s.task = None


class LoopInfo:
    pass


def cfg(f):
    """predecessors, dominators, natural loops, immediate post-dominators (normal edges only)"""
    if hasattr(f, '_cfg'):
        return f._cfg
    n = len(f.blocks)
    succ = []
    for b in f.blocks:
        t = b[-1]
        if t.op == 'br':
            s = list(t.x)
        elif t.op == 'switch':
            s = [t.x[0]] + [c[1] for c in t.x[1]]
        elif t.op == 'invoke':
            s = [t.x[2][0]]
        else:
            s = []
        succ.append(list(dict.fromkeys(s)))
    reach, st = {0}, [0]
    while st:
        b = st.pop()
        for s in succ[b]:
            if s not in reach:
                reach.add(s)
                st.append(s)
    pred = {b: [] for b in reach}
    for b in reach:
        for s in succ[b]:
            pred[s].append(b)
    dom = {b: set(reach) for b in reach}
    dom[0] = {0}
    ch = True
    order = sorted(reach)
    while ch:
        ch = False
        for b in order:
            if b == 0:
                continue
            d = None
            for p in pred[b]:
                d = set(dom[p]) if d is None else d & dom[p]
            d = (d or set()) | {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    loops = {}
    for b in reach:
        for s in succ[b]:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w.extend(pred[x])
    # post-dominators: virtual exit = n
    ex = n
    ps = {b: (succ[b] if succ[b] else [ex]) for b in reach}
    pdom = {b: set(reach) | {ex} for b in reach}
    pdom[ex] = {ex}
    ch = True
    while ch:
        ch = False
        for b in sorted(reach, reverse=True):
            d = None
            for s in ps[b]:
                d = set(pdom[s]) if d is None else d & pdom[s]
            d = d | {b}
            if d != pdom[b]:
                pdom[b] = d
                ch = True
    ipdom = {}
    for b in reach:
        c = pdom[b] - {b}
        # immediate: the one post-dominated by all others
        best = None
        for x in c:
            if all(y == x or y in pdom[x] for y in c):
                best = x
                break
        ipdom[b] = best if best != ex else None
    li = LoopInfo()
    li.succ, li.loops, li.ipdom, li.reach = succ, loops, ipdom, reach
    f._cfg = li
    return li


def globals_of(f):
    r = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'g' and isinstance(x[1], str):
                r.add(x[1])
                return
            for y in x:
                go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    for b in f.blocks:
        for i in b:
            go(i.a)
            go(i.x)
    return r


def same_obj(a, b, sa, sb):
    if a is b:
        return True
    if a.kind != b.kind or set(a.cells) != set(b.cells) or len(a.segs) != len(b.segs):
        return False
    for k in a.cells:
        x, y = a.cells[k], b.cells[k]
        if x[0] != y[0]:
            return False
        if isinstance(x[1], Ref) and isinstance(y[1], Ref):
            if x[1].id not in sa.mem or y[1].id not in sb.mem or not same_obj(sa.mem[x[1].id], sb.mem[y[1].id], sa, sb):
                return False
        elif not same(x[1], y[1]):
            return False
    for x, y in zip(a.segs, b.segs):
        if x is not y and not (isinstance(x, BSeg) and isinstance(y, BSeg) and x.start == y.start and x.n == y.n and
                               same(x.v, y.v) and x.kind == y.kind):
            return False
    return True


def closed(o, st):
    for sz, v in o.cells.values():
        if isinstance(v, Poly) and v.is_const() or isinstance(v, Z) and v.v.is_const() or isinstance(v, FPtr):
            continue
        if isinstance(v, Ptr) and (v.obj is None or isinstance(v.obj, str)):
            continue
        if isinstance(v, Ref) and v.id in st.mem and closed(st.mem[v.id], st):
            continue
        return False
    return all(isinstance(x, BSeg) and x.start.is_const() and x.n.is_const() and isinstance(x.v, Poly) and x.v.is_const() for x in o.segs)


def tparse(name):
    """'std::vector<X, A>::meth(args) const' -> (class without template args, targs, method)"""
    i = name.find('std::vector<')
    return None


def short(dem):
    """demangled name without return type / parameter list"""
    return dem


class Engine:
    def __init__(s, mod, contracts=None, lib=None):
        s.mod = mod
        s.dem = {n: llvmc.demangle(n) for n in mod.fptr}
        s.bydem = {}
        for n, d in s.dem.items():
            s.bydem.setdefault(d, n)
        s.lib = lib or {}
        s.contracts = contracts or []
        s._res = {}
        s._dyn = set()
        s.may_change = []
        s.finite_points = False        # assumption of a task: points drawn at random are not infinite
        s.weak = set()
        s.alias_curves = False
        s.obs = []
        s.used = {}              # contracts applied -> count
        s.inlined = {}
        s.trusted = {}
        s.inline = set()         # contract names not to be applied in this task
        s.unroll = 64
        s.soft = 4
        s.merge_pred = None
        s.strict_merge = True
        s.merge_all = 0
        s.steps = 0
        s.max_steps = 3000000
        s.deadline = None
        s.stack = []
        s.bounded = []
        s.invariants = []
        s.paths = 0
        s.force_unroll = False
        s.merge_cells_hook = None
        s.ghosts = ()
        s.quiet = 0              # >0: trial run (loop invariant inference): obligations not recorded

    # ------------------------------------------------------------ obligations
    def where(s):
        if not s.stack:
            return '?'
        f, line = s.stack[-1]
        # innermost frame that is /repo code
        for fn, ln in reversed(s.stack):
            F = s.mod._funcs.get(fn)
            if F and F.file and ('/repo/' in F.file or '/verif/' in F.file or not F.file.startswith('/usr')):
                return '%s:%s' % (s.pretty(fn), ln)
        return '%s:%s' % (s.pretty(f), line)

    def pretty(s, fn):
        d = s.dem.get(fn, fn)
        d = re.sub(r'\(.*', '', d)
        d = re.sub(r'<[^<>]*>', '', d)
        d = re.sub(r'<[^<>]*>', '', d)
        return d

    def oblige(s, st, goal, name, note='', assume=True):
        if goal is TRUE:
            if not s.quiet:
                s.obs.append(Ob(name, True, 'norm'))
            return True
        if s.quiet:
            # inference only: take it for granted
            st.assume(goal)
            return True
        ctx = s.inst_foralls(st, goal)
        r = prove(goal, ctx)
        nm = '%s @ %s' % (name, s.where()) if s.stack else name
        s.obs.append(Ob(nm, r.ok, r.how, goal, ctx, note, st.foralls))
        if assume:
            st.assume(goal)
        return r.ok

    def inst_foralls(s, st, goal):
        ctx = st.ctx
        for fa in st.foralls:
            for t in fa.terms(ctx, goal):
                ctx = ctx.add(fa.inst(t, ctx))
        return ctx

    def fail(s, st, name, note=''):
        if s.quiet:
            raise BadPath(name)
        # unreachable?
        if PR.z3_check(st.ctx.facts, FALSE, timeout=3000) is True:
            raise BadPath(name)
        s.obs.append(Ob('%s @ %s' % (name, s.where()), False, 'fail', FALSE, st.ctx, note, st.foralls))
        raise BadPath(name)

    def fresh(s, st, name, lo=-INF, hi=INF):
        st.cnt += 1
        nm = '%s%s#%d' % (st.scope, name, st.cnt)
        if st.iters:
            T.APP_RANGE[nm] = (lo, hi)
            return App(nm, *st.iters, lo=lo, hi=hi)
        return S(nm, lo, hi)

    def fresh_bool(s, st, name):
        return eq(s.fresh(st, name, 0, 1), ONE)

    # ------------------------------------------------------------ decisions
    def decide(s, st, b):
        """True/False/None under the path condition (None: both feasible)"""
        d = decide(b, st.ctx)
        if d is not None:
            return d
        b2 = simp_bool(b, st.ctx)
        d = decide(b2, st.ctx)
        if d is not None:
            return d
        if not feasible(st.ctx, b2):
            return False
        if not feasible(st.ctx, not_(b2)):
            return True
        return None

    def need(s, st, b):
        """decide b or fork"""
        d = s.decide(st, b)
        if d is None:
            raise Fork(b)
        return d

    # ------------------------------------------------------------ values
    def val(s, st, regs, v):
        k = v[0]
        if k == 'r':
            r = regs[v[1]]
            if r is None:
                raise Unsupported('undefined register')
            return r
        if k == 'c':
            return P(v[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return Ptr(s.glob(st, v[1]), ZERO)
        if k == 'f':
            return FPtr(v[1])
        if k == 'gep':
            b = s.val(st, regs, v[1])
            return Ptr(b.obj, b.off + v[2], b.null)
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return ZERO
        if k == 'agg':
            return [s.val(st, regs, x) for x in v[1]]
        raise Unsupported('operand ' + str(v)[:80])

    def glob(s, st, name):
        gid = 'g:' + name
        if gid in st.mem:
            return gid
        gi = s.mod.global_init(name)
        size, const, cells, ty = gi
        o = Obj(gid, 'cells', size, name)
        o.ro = const
        o.heap = True
        if cells is None:
            o.ty = 'extern'
        else:
            if len(cells) == 1 and cells[0][2][0] == 'zero':
                if isinstance(ty, tuple) and ty[0] == 'a' and ty[3] == 8:
                    o.kind = 'bytes'
                    o.segs = [BSeg(ZERO, size, ZERO)]
                else:
                    o.ty = 'zero'
            elif isinstance(ty, tuple) and ty[0] == 'a' and ty[3] == 8 and all(c[2][0] == 'c' for c in cells):
                o.kind = 'bytes'
                v = 0
                for c in cells:
                    v = v * 256 + c[2][1]
                o.segs = [BSeg(ZERO, size, P(v))]
                o.table = [1, [c[2][1] for c in cells]]
            else:
                for off, sz, v in cells:
                    if v[0] == 'zero' and sz not in (1, 2, 4, 8):
                        for i in range(0, sz, 8 if sz % 8 == 0 else 4 if sz % 4 == 0 else 1):
                            e = 8 if sz % 8 == 0 else 4 if sz % 4 == 0 else 1
                            o.cells[off + i] = (e, ZERO)
                    elif v[0] != 'undef':
                        o.cells[off] = (sz, s.val(st, None, v))
                szs = {c[1] for c in cells}
                if const and len(szs) == 1 and all(c[2][0] == 'c' for c in cells):
                    o.table = [szs.pop(), [c[2][1] for c in cells]]
        st.mem[gid] = o
        if not const and o.ty == 'zero':
            s.dyninit(st, name, gid)
        return gid

    def inits(s):
        """global variable -> function of its dynamic initialisation"""
        if not hasattr(s.mod, '_inits'):
            r = {}
            for n in s.mod.fptr:
                if '__cxx_global_var_init' in n and not s.mod.is_decl(n):
                    try:
                        f = s.mod.func(n)
                    except Exception:
                        continue
                    for g in sorted(globals_of(f)):
                        if not g.startswith('_ZGV') and g != '__dso_handle' and not s.mod.global_init(g)[1]:
                            r[g] = None if g in r else n
            s.mod._inits = r
        return s.mod._inits

    def dyninit(s, st, name, gid):
        """the state of a global variable after its dynamic initialisation (before main)"""
        f = s.inits().get(name)
        if f is None or name in s._dyn:
            return
        d = s.dem.get(f, f)
        s._dyn.add(name)
        try:
            t = State()
            q, s.quiet = s.quiet, True
            stack, s.stack = s.stack, []
            try:
                s.glob(t, name)
                outs = s.run_body(t, f, [])
            finally:
                s.quiet, s.stack = q, stack
            if len(outs) == 1 and outs[0][1] == 'ret':
                t = outs[0][0]
                for k, o in t.mem.items():
                    if k == gid or not isinstance(k, str):
                        st.mem[k] = o.copy()
                st.mem[gid].ty = None
        except (Unsupported, BadPath, Fork):
            pass
        finally:
            s._dyn.discard(name)

    def statics(s, st0, st):
        """a call leaves the static state as it found it, except for the initialisation of local statics"""
        for gid, o in list(st.mem.items()):
            if not isinstance(gid, str) or o.ro or gid.startswith('g:_ZGV'):
                continue
            name = gid[2:]
            if s.dem.get(name, None) is None:
                s.dem[name] = llvmc.demangle(name)
            if any(re.search(x, s.dem[name]) for x in s.may_change):
                continue
            if name in st.globs:
                b = st.globs[name]
                ok = same_obj(o, b, st, st) and closed(o, st)
            else:
                if gid in st0.mem:
                    b = st0.mem[gid]
                else:
                    t = State()
                    s.glob(t, name)
                    b = t.mem[gid]
                    for k, v in t.mem.items():
                        st0.mem.setdefault(k, v)
                ok = same_obj(o, b, st, st0)
            if not ok:
                try:
                    s.fail(st, 'static state %s is left changed by the call' % s.dem[name])
                except BadPath:
                    pass

    # ------------------------------------------------------------ memory
    def deref(s, st, p, size, what):
        if isinstance(p, Poly) and p.const() == 0:
            p = NULL
        if not isinstance(p, Ptr):
            raise Unsupported('access through %r' % (p,))
        if p.null is TRUE or p.obj is None:
            s.fail(st, 'null dereference (%s)' % what)
        if p.null is not FALSE:
            if not s.oblige(st, not_(p.null), 'pointer not null (%s)' % what):
                pass
        o = st.mem.get(p.obj)
        if o is None:
            s.fail(st, 'access to a dead object (%s)' % what)
        if o.al:
            import contracts
            if not contracts.curves_intact(s, st, o):
                s.fail(st, 'access to a dead curve object (%s)' % what)
        return o

    def bounds(s, st, o, off, size, what):
        c = off.const()
        n = o.size
        if c is not None and isinstance(n, int) and isinstance(size, int):
            if c < 0 or c + size > n:
                s.fail(st, 'out of bounds (%s)' % what, 'offset %d size %d object %s of %d bytes' % (c, size, o.name, n))
            return
        if n is None:
            return
        g = and_(le(ZERO, off), le(off + size, P(n)))
        if decide(g, st.ctx) is True:
            return
        ok = s.oblige(st, g, 'in bounds (%s)' % what)

    def load(s, st, p, ty):
        size = 8 if ty == 'p' else s.mod.tsize(ty)
        if isinstance(ty, tuple) and ty[0] == 's':
            return [s.load(st, Ptr(p.obj, p.off + o2, p.null), t2) for o2, t2 in ty[2]]
        if isinstance(ty, tuple) and ty[0] == 'a' and ty[2] <= 64:
            return [s.load(st, Ptr(p.obj, p.off + k * ty[4], p.null), ty[3]) for k in range(ty[2])]
        o = s.deref(st, p, size, 'load')
        if o.kind == 'vec':
            cells, rel = s.vec_at(st, o, p.off, size)
            return s.cell_read(st, cells, rel, size, ty, o)
        s.bounds(st, o, p.off, size, 'load')
        if o.kind == 'bytes':
            c = p.off.const()
            v = ZERO
            if o.table and c is None:
                return s.table_read(st, o, p.off, size)
            for i in range(size):
                v = v + s.byte_at(st, o, p.off + i).scale(256 ** i)
            return s.conv(v, ty)
        c = p.off.const()
        if c is None:
            p2 = simp_poly(p.off, st.ctx)
            c = p2.const()
            if c is None:
                if o.table:
                    return s.conv(s.table_read(st, o, p2, size), ty)
                s.split_offset(st, o, p2)
        return s.cell_read(st, o.cells, c, size, ty, o)

    def split_offset(s, st, o, off):
        """symbolic offset into an object with few cells: case split"""
        offs = sorted(o.cells)
        if len(offs) <= 64:
            for k in offs:
                b = eq(off, P(k))
                if s.decide(st, b) is not False:
                    raise Fork(b)
        raise Unsupported('symbolic offset into %s' % o.name)

    def conv(s, v, ty):
        if ty == 1:
            return v if isinstance(v, Bool) else eq(Mod(v, 2), ONE)
        return v

    def cell_read(s, st, cells, off, size, ty, o):
        c = cells.get(off)
        if c is not None:
            sz, v = c
            if sz == size:
                if isinstance(v, Z):
                    raise Unsupported('raw read of an mpz')
                if isinstance(v, GenVec) or v is UNDEF:
                    pass
                else:
                    if ty == 'p' and isinstance(v, Poly) and v.const() == 0:
                        return NULL
                    return s.conv(v, ty)
        # inside a bigger cell / mpz field / several small cells
        for o2 in sorted(cells):
            sz, v = cells[o2]
            if o2 <= off and off + size <= o2 + sz:
                if isinstance(v, Z):
                    if off - o2 == 4 and size == 4:
                        lm = App('limbs', v.v, lo=1, hi=(1 << 31) - 1)
                        if decide(lt(ZERO, v.v), st.ctx) is True:
                            return lm
                        if decide(le(ZERO, v.v), st.ctx) is True:
                            return B(lt(ZERO, v.v)) * lm
                        return B(lt(ZERO, v.v)) * lm - B(lt(v.v, ZERO)) * lm
                    if off - o2 == 8 and size == 8 and ty == 'p':
                        # the lowest limb (of an object of its own: read-only, nothing above it is modelled)
                        l = new_obj(st, 'cells', 8, 'mpz limb')
                        l.ro = True
                        av = v.v if rng(v.v, st.ctx.rg)[0] >= 0 else ite(le(ZERO, v.v), v.v, -v.v)
                        l.cells[0] = (8, Mod(av, 1 << 64))
                        return Ptr(l.id)
                    raise Unsupported('raw access to an mpz')
                if isinstance(v, Poly):
                    u = U(v, sz * 8, st.ctx.rg)
                    return s.conv(Mod(Div(u, 256 ** (off - o2)), 256 ** size), ty)
        if isinstance(ty, int):
            tot, pos = ZERO, off
            while pos < off + size:
                c = cells.get(pos)
                if c is None or not isinstance(c[1], Poly) or pos + c[0] > off + size:
                    break
                tot = tot + U(c[1], c[0] * 8, st.ctx.rg).scale(256 ** (pos - off))
                pos += c[0]
            else:
                return s.conv(tot, ty)
        if o is not None and o.ty == 'zero':
            return NULL if ty == 'p' else s.conv(ZERO, ty)
        return UNDEF

    def cell_write(s, cells, off, size, v):
        for k in [k for k in cells if k < off + size and off < k + cells[k][0]]:
            sz, old = cells.pop(k)
            if k == off and sz == size:
                break
            if (k < off or k + sz > off + size) and isinstance(old, Poly):
                u = U(old, sz * 8)
                if k < off:
                    cells[k] = (off - k, Mod(u, 256 ** (off - k)))
                if k + sz > off + size:
                    cells[off + size] = (k + sz - off - size, Div(u, 256 ** (off + size - k)))
        if v is not UNDEF:
            cells[off] = (size, v)

    def store(s, st, p, v, ty):
        size = 8 if ty == 'p' else s.mod.tsize(ty)
        if isinstance(ty, tuple) and ty[0] in 'sa' and (isinstance(v, list) or v is UNDEF or isinstance(v, Poly)):
            fl = ty[2] if ty[0] == 's' else [(k * ty[4], ty[3]) for k in range(ty[2])]
            for k, (o2, t2) in enumerate(fl):
                x = v[k] if isinstance(v, list) else UNDEF if v is UNDEF else (NULL if t2 == 'p' else ZERO)
                s.store(st, Ptr(p.obj, p.off + o2, p.null), x, t2)
            return
        o = s.deref(st, p, size, 'store')
        if o.ro:
            s.fail(st, 'store to a constant')
        if isinstance(v, Bool):
            v = B(v)
        if o.kind == 'vec':
            cells, rel = s.vec_at(st, o, p.off, size, write=True)
            s.cell_write(cells, rel, size, v)
            return
        s.bounds(st, o, p.off, size, 'store')
        if o.kind == 'bytes':
            if v is UNDEF:
                raise Unsupported('undef byte store')
            if not isinstance(v, Poly):
                raise Unsupported('pointer stored in a byte buffer')
            u = U(v, size * 8, st.ctx.rg)
            o = st.w(o.id)
            for i in range(size):
                s.bytes_write(st, o, p.off + i, ONE, Mod(Div(u, 256 ** i), 256))
            return
        c = p.off.const()
        if c is None:
            p2 = simp_poly(p.off, st.ctx)
            c = p2.const()
            if c is None:
                s.split_offset(st, o, p2)
        s.cell_write(st.w(o.id).cells, c, size, v)

    def table_read(s, st, o, off, size):
        es, vals = o.table
        if es != size:
            raise Unsupported('table element size')
        idx = Div(off, es) if es > 1 else off
        c = off.m.get((), 0)
        if any(k % es for k in off.m.values()):
            raise Unsupported('misaligned table access')
        idx = Poly({m: k // es for m, k in off.m.items()})
        base = c // es
        var = idx - base
        lo, hi = rng(var, st.ctx.rg)
        if lo < 0 or hi == INF:
            lo, hi = rng(idx, st.ctx.rg)
            base, var = 0, idx
        if hi == INF or lo < 0 or base + hi >= len(vals):
            raise Unsupported('table index range')
        n = int(hi).bit_length()
        # GF(2)-affine table?
        tab = vals[base:base + (1 << n)]
        if len(tab) == (1 << n):
            t0 = tab[0]
            ok = all(tab[i] == (tab[i & (i - 1)] ^ tab[i & -i] ^ t0) for i in range(1 << n))
            if ok:
                r = P(t0)
                w = es * 8
                for k in range(n):
                    d = tab[1 << k] ^ t0
                    if d:
                        r = Xor(r, s.spread(var, k, d, w), w)
                return r
        T.FUN.setdefault('tab:' + o.name, lambda i, v=vals: v[i] if 0 <= i < len(v) else 0)
        return App('tab:' + o.name, idx, lo=min(vals), hi=max(vals))

    def spread(s, v, k, d, w):
        """the word having bit(v,k) at every set bit of d"""
        f = T.bits_of(v, k + 1)[k]
        return T.bits_make([f if d >> i & 1 else (frozenset(), 0) for i in range(w)])

    # ---- byte buffers
    def byte_at(s, st, o, off):
        for g in reversed(o.segs):
            d = s.decide(st, and_(le(g.start, off), lt(off, g.start + g.n)))
            if d is None:
                raise Fork(and_(le(g.start, off), lt(off, g.start + g.n)))
            if d:
                if g.v is None:
                    return UNDEF_BYTE(s, st)
                rel = simp_poly(off - g.start, st.ctx)
                if g.kind == 'bin':
                    k = simp_poly(g.n - 1 - rel, st.ctx)
                    return P(48) + (T.Bit(g.v, k.const()) if k.is_const() else T.BitSym(g.v, k))
                n1 = simp_poly(g.n - 1 - rel, st.ctx)
                c = n1.const()
                if c is not None:
                    return Mod(Div(g.v, 256 ** c), 256)
                return Mod(Div(g.v, Pow(256, n1)), 256)
        s.fail(st, 'read of uninitialised bytes')

    def bytes_value(s, st, o, off, n):
        """big-endian integer value of bytes [off, off+n)"""
        off, n = simp_poly(off, st.ctx), simp_poly(n, st.ctx)
        if s.need(st, eq(n, ZERO)):
            return ZERO
        pos, total = off, ZERO
        left = n
        for _ in range(64):
            if left.const() == 0 or s.decide(st, eq(left, ZERO)) is True:
                return total
            g = None
            for q in reversed(o.segs):
                d = s.decide(st, and_(le(q.start, pos), lt(pos, q.start + q.n)))
                if d is None:
                    raise Fork(and_(le(q.start, pos), lt(pos, q.start + q.n)))
                if d:
                    g = q
                    break
            if g is None or g.v is None:
                s.fail(st, 'read of uninitialised bytes')
            if g.kind not in ('be', 'txt'):
                raise Unsupported('text bytes as a number')
            rel = simp_poly(pos - g.start, st.ctx)
            avail = simp_poly(g.n - rel, st.ctx)
            if s.need(st, le(avail, left)):
                take, piece = avail, s.low_bytes(g.v, avail) if rel.const() != 0 else g.v
            else:
                take = left
                v = s.low_bytes(g.v, avail) if rel.const() != 0 else g.v
                piece = Div(v, s.pow256(simp_poly(avail - left, st.ctx)))
            total = total * s.pow256(take) + piece
            pos = simp_poly(pos + take, st.ctx)
            left = simp_poly(left - take, st.ctx)
        raise Unsupported('too many byte segments')

    def pow256(s, n):
        c = n.const()
        return P(256 ** c) if c is not None else Pow(256, n)

    def low_bytes(s, v, n):
        return Mod(v, s.pow256(n).const() if n.is_const() else Pow(256, n))

    def bytes_write(s, st, o, off, n, v, kind='be'):
        """overwrite bytes [off, off+n); o is writable"""
        off, n = simp_poly(off, st.ctx), simp_poly(n, st.ctx)
        if n.const() == 0:
            return
        out = []
        for g in o.segs:
            e, ge = off + n, g.start + g.n
            if s.decide(st, le(ge, off)) is True or s.decide(st, le(e, g.start)) is True:
                out.append(g)
                continue
            # overlap (or undecided): keep what is left and right of the written range
            if s.decide(st, le(off, g.start)) is not True:
                if s.decide(st, lt(g.start, off)) is not True:
                    raise Fork(le(off, g.start))
                ln = simp_poly(off - g.start, st.ctx)
                vv = None if g.v is None else Div(g.v, s.pow256(simp_poly(g.n - ln, st.ctx)))
                if s.decide(st, le(off, ge)) is not True:
                    raise Fork(le(off, ge))
                out.append(BSeg(g.start, ln, vv, g.kind))
            if s.decide(st, le(ge, e)) is not True:
                if s.decide(st, lt(e, ge)) is not True:
                    raise Fork(le(ge, e))
                ln = simp_poly(ge - e, st.ctx)
                out.append(BSeg(e, ln, None if g.v is None else s.low_bytes(g.v, ln), g.kind))
        # merge with an adjacent preceding single piece is done lazily on reading
        out.append(BSeg(off, n, v, kind))
        o.segs = out

    # ---- vectors
    def vec_idx(s, st, o, off):
        es = o.es
        idx, rel = {}, 0
        for mo, c in off.m.items():
            if not mo:
                rel = c % es
                if c // es:
                    idx[mo] = c // es
            else:
                if c % es:
                    raise Unsupported('vector offset %s in elements of %d (%s)' % (T.show(off), es, o.ty))
                idx[mo] = c // es
        return Poly(idx), rel

    def vec_at(s, st, o, off, size, write=False):
        idx, rel = s.vec_idx(st, o, off)
        if rel + size > o.es:
            raise Unsupported('access across vector elements')
        idx = simp_poly(idx, st.ctx)
        g = and_(le(ZERO, idx), lt(idx, o.n))
        if decide(g, st.ctx) is not True:
            if s.quiet == 0:
                d = s.decide(st, g)
                if d is False:
                    s.fail(st, 'vector index out of bounds')
            s.oblige(st, g, 'vector index in bounds')
        for i, sg in enumerate(o.segs):
            if sg.bv is None:
                c = eq(idx, sg.start)
            else:
                c = and_(le(sg.start, idx), lt(idx, sg.start + sg.n))
            d = s.decide(st, c)
            if d is None:
                if not write and st.iters and any(a.kind == 'sym' and str(a.args[0])[:2] in ('k:', 'h:') for a in T._fvx(idx)):
                    r = s.vec_ite(st, o, idx)
                    if r is not None:
                        return r, rel
                if write and s.quiet and o.id in s.weak:
                    r = s.vec_ite(st, o, idx)
                    if r is not None:
                        # inference of a loop invariant: the index is not known yet
                        o = st.w(o.id)
                        o.segs = [Seg(idx, ONE, dict(r))] + list(o.segs)
                        return o.segs[0].cells, rel
                raise Fork(c)
            if d:
                if sg.bv is None:
                    if write:
                        o = st.w(o.id)
                        ns = Seg(sg.start, sg.n, dict(sg.cells))
                        o.segs[i] = ns
                        return ns.cells, rel
                    return sg.cells, rel
                cells = s.inst_cells(st, sg, idx)
                if write:
                    o = st.w(o.id)
                    k = idx - sg.start
                    new = []
                    if s.decide(st, eq(k, ZERO)) is not True:
                        new.append(Seg(sg.start, k, sg.cells, sg.bv))
                    el = Seg(idx, ONE, cells)
                    new.append(el)
                    rest = simp_poly(sg.n - k - 1, st.ctx)
                    if rest.const() != 0:
                        off1 = k + 1
                        sub = {sg.bv: sg.bv.poly + off1}
                        new.append(Seg(idx + 1, rest, s.subst_cells(sg.cells, sub), sg.bv))
                    o.segs[i:i + 1] = new
                    return el.cells, rel
                return cells, rel
        s.fail(st, 'vector element not found')

    def vec_ite(s, st, o, idx):
        """the element at an index of a loop, whichever part of the vector it lies in"""
        r = None
        try:
            for sg in reversed(o.segs):
                if sg.bv is None:
                    c, cells = eq(idx, sg.start), sg.cells
                else:
                    c, cells = lt(idx, sg.start + sg.n), s.inst_cells(st, sg, idx)
                if s.decide(st, c) is False and sg is not o.segs[-1]:
                    continue
                if r is None:
                    r = cells
                elif r.keys() != cells.keys():
                    return None
                else:
                    r = s.mergecells(c, cells, r)
        except KeyError:
            return None
        return r

    def inst_cells(s, st, sg, idx):
        return s.subst_cells(sg.cells, {sg.bv: simp_poly(idx - sg.start, st.ctx)})

    def subst_val(s, v, sub):
        if isinstance(v, Poly):
            return subst(v, sub)
        if isinstance(v, Z):
            return Z(subst(v.v, sub))
        if isinstance(v, Bool):
            return substb(v, sub)
        if isinstance(v, Ptr):
            if v.off.is_const() and v.null in (TRUE, FALSE):
                return v
            return Ptr(v.obj, subst(v.off, sub), substb(v.null, sub))
        if isinstance(v, GenVec):
            return GenVec(subst(v.n, sub), v.es, [Seg(subst(g.start, sub), subst(g.n, sub), s.subst_cells(g.cells, sub), g.bv) for g in v.elems], v.ty)
        return v

    def subst_cells(s, cells, sub):
        return {k: (sz, s.subst_val(v, sub)) for k, (sz, v) in cells.items()}

    # ---- typed cell access (mpz, headers)
    def cells_of(s, st, p, size, write=False, what='access'):
        o = s.deref(st, p, size, what)
        if o.kind == 'vec':
            return s.vec_at(st, o, p.off, size, write)
        s.bounds(st, o, p.off, size, what)
        if o.kind == 'bytes':
            raise Unsupported('object in a byte buffer')
        c = p.off.const()
        if c is None:
            c = simp_poly(p.off, st.ctx).const()
            if c is None:
                s.split_offset(st, o, p.off)
        if write:
            if o.ro:
                s.fail(st, 'write to a constant')
            o = st.w(o.id)
        return o.cells, c

    def zget(s, st, p):
        cells, c = s.cells_of(st, p, 16, what='mpz')
        v = cells.get(c)
        if v is None or not isinstance(v[1], Z):
            s.fail(st, 'use of an uninitialised mpz')
        return v[1].v

    def zset(s, st, p, v):
        cells, c = s.cells_of(st, p, 16, True, what='mpz')
        s.cell_write(cells, c, 16, Z(v))

    def copy_range(s, st, dst, src, n):
        """memcpy of n (constant) bytes between cell objects"""
        so = s.deref(st, src, n, 'memcpy source')
        do = s.deref(st, dst, n, 'memcpy destination')
        if so.kind == 'bytes' or do.kind == 'bytes':
            v = s.bytes_value(st, so, src.off, P(n)) if so.kind == 'bytes' else s.cells_as_bytes(st, so, src, n)
            if do.kind == 'bytes':
                s.bounds(st, do, dst.off, n, 'memcpy')
                s.bytes_write(st, st.w(do.id), dst.off, P(n), v)
            else:
                c = dst.off.const()
                o = st.w(do.id)
                for i in range(n):
                    s.cell_write(o.cells, c + i, 1, Mod(Div(v, 256 ** (n - 1 - i)), 256))
            return
        sc, so_ = s.cells_of(st, src, n if so.kind != 'vec' else min(n, so.es), what='memcpy')
        items = [(k - so_, sz, v) for k, (sz, v) in sc.items() if so_ <= k and k + sz <= so_ + n]
        dc, do_ = s.cells_of(st, dst, n if do.kind != 'vec' else min(n, do.es), True, what='memcpy')
        for k in [k for k in dc if do_ <= k < do_ + n]:
            del dc[k]
        for k, sz, v in items:
            dc[do_ + k] = (sz, v)

    def cells_as_bytes(s, st, o, p, n):
        v = ZERO
        for i in range(n):
            b = s.load(st, Ptr(p.obj, p.off + i), 8)
            if b is UNDEF:
                s.fail(st, 'copy of uninitialised bytes')
            v = v * 256 + b
        return v

    # ------------------------------------------------------------ calls
    def resolve(s, name):
        r = s._res.get(name)
        if r is None:
            r = s._res[name] = s._resolve(name)
        return r

    def _resolve(s, name):
        d = s.dem.get(name, name)
        h = s.lib.get(name)
        if h:
            return ('lib', h, d)
        for pat, h in s.lib.get('@', ()):
            m = pat.match(d)
            if m:
                return ('lib', (lambda hh, mm: lambda e, st, args, inst: hh(e, st, args, inst, mm))(h, m), d)
        for c in s.contracts:
            if c.match(d):
                return ('contract', c, d)
        if name in s.mod.fptr and not s.mod.is_decl(name):
            return ('inline', None, d)
        return ('none', None, d)

    def call(s, st, name, args, inst=None):
        """-> list of (state, kind, value)"""
        kind, h, d = s.resolve(name)
        if kind == 'contract' and h.name in s.inline:
            kind = 'inline' if name in s.mod.fptr and not s.mod.is_decl(name) else 'none'
        if kind == 'lib':
            if not s.quiet:
                s.trusted[d] = s.trusted.get(d, 0) + 1
            r = h(s, st, args, inst)
            if isinstance(r, list):
                return r
            return [(st, 'ret', r)]
        if kind == 'contract':
            r = h.apply(s, st, args, name, d)
            if r is not NotImplemented:
                if not s.quiet:
                    s.used[h.name] = s.used.get(h.name, 0) + 1
                return r
            kind = 'inline'
        if kind == 'inline' and name in s.mod.fptr and not s.mod.is_decl(name):
            if not s.quiet:
                s.inlined[d] = s.inlined.get(d, 0) + 1
            return s.run_func(st, name, args)
        raise Unsupported('call to %s' % d[:200])

    def run_func(s, st, name, args):
        if s.stack or s._dyn:
            return s.run_body(st, name, args)
        st0 = st.clone()
        outs = s.run_body(st, name, args)
        for st2, k2, v2 in outs:
            s.statics(st0, st2)
        return outs

    def run_body(s, st, name, args):
        f = s.mod.func(name)
        if len(s.stack) > 200:
            raise Unsupported('recursion')
        regs = [None] * f.nregs
        for i, a in enumerate(args):
            regs[i] = a
        s.stack.append([name, 0])
        mark = _objid[0]
        try:
            stopped, fin = s.region(st, f, regs, 0, None, frozenset(), None)
        except Unsupported as x:
            if not hasattr(x, 'where'):
                x.where = ' < '.join('%s:%s' % (s.pretty(n), l) for n, l in reversed(s.stack))
            raise
        finally:
            s.stack.pop()
        out = []
        for st2, kind, v in fin:
            out.append((st2, kind, v))
        return out

    def enter(s, st, f, regs, bb, prev):
        """evaluate phis on the edge prev->bb; returns regs (copied if needed)"""
        blk = f.blocks[bb]
        if blk[0].op != 'phi':
            return regs
        new = []
        for i in blk:
            if i.op != 'phi':
                break
            for b, v in i.x:
                if b == prev:
                    new.append((i.res, s.val(st, regs, v)))
                    break
        regs = list(regs)
        for r, v in new:
            regs[r] = v
        return regs

    def region(s, st, f, regs, bb, prev, stops, noloop):
        """run from the start of bb until a stop block or the end of the function.
        -> ([(state, regs, bb, prev)], [(state, kind, value)])"""
        info = cfg(f)
        stopped, fin = [], []
        work = [(st, regs, bb, 0, noloop)]
        while work:
            st, regs, bb, i0, nl = work.pop()
            if i0 == 0 and bb in info.loops and nl != bb:
                import loops
                ex, fn = loops.run_loop(s, st, f, regs, bb, stops)
                fin.extend(fn)
                for st2, regs2, b2, p2 in ex:
                    if b2 in stops:
                        stopped.append((st2, regs2, b2, p2))
                    else:
                        work.append((st2, regs2, b2, 0, None))
                continue
            blk = f.blocks[bb]
            idx = i0
            if idx == 0:
                while blk[idx].op == 'phi':
                    idx += 1
            try:
                nxt = s.block(st, f, regs, bb, blk, idx, fin, work, info, stops, stopped)
            except BadPath:
                continue
        return stopped, fin

    def go(s, st, f, regs, bb, to, work, stops, stopped):
        regs = s.enter(st, f, regs, to, bb)
        if to in stops:
            stopped.append((st, regs, to, bb))
        else:
            work.append((st, regs, to, 0, None))

    def block(s, st, f, regs, bb, blk, idx, fin, work, info, stops, stopped):
        fr = s.stack[-1]
        n = len(blk)
        while idx < n:
            i = blk[idx]
            s.steps += 1
            if s.steps & 1023 == 0:
                if s.steps > s.max_steps:
                    raise Unsupported('step limit')
                if s.deadline and time.time() > s.deadline:
                    raise Unsupported('time limit')
            if i.line:
                fr[1] = i.line
            op = i.op
            try:
                if op == 'load':
                    p = regs[i.a[0][1]] if i.a[0][0] == 'r' else s.val(st, regs, i.a[0])
                    regs[i.res] = s.load(st, p, i.ty)
                elif op == 'store':
                    s.store(st, s.val(st, regs, i.a[1]), s.val(st, regs, i.a[0]), i.x)
                elif op == 'call' or op == 'invoke':
                    outs = s.do_call(st, regs, i)
                    if op == 'invoke':
                        to = i.x[2][0]
                    res = []
                    for st2, kind, v in outs:
                        if kind != 'ret':
                            fin.append((st2, kind, v))
                        else:
                            res.append((st2, v))
                    if not res:
                        return
                    if op == 'invoke':
                        for k, (st2, v) in enumerate(res):
                            r2 = list(regs) if len(res) > 1 else regs
                            r2[i.res] = v
                            s.go(st2, f, r2, bb, to, work, stops, stopped)
                        return
                    if len(res) == 1:
                        st, v = res[0]
                        regs[i.res] = v
                    else:
                        for st2, v in res:
                            r2 = list(regs)
                            r2[i.res] = v
                            work.append((st2, r2, bb, idx + 1, bb))
                        return
                elif op == 'br':
                    if len(i.x) == 1:
                        s.go(st, f, regs, bb, i.x[0], work, stops, stopped)
                        return
                    c = s.val(st, regs, i.a[0])
                    if c is UNDEF:
                        s.fail(st, 'branch on an uninitialised value')
                    if isinstance(c, Poly):
                        c = not_(eq(c, ZERO))
                    d = s.decide(st, c)
                    if d is not None:
                        s.go(st, f, regs, bb, i.x[0] if d else i.x[1], work, stops, stopped)
                        return
                    s.branch(st, f, regs, bb, c, i.x, work, info, stops, stopped, fin)
                    return
                elif op == 'switch':
                    v = s.val(st, regs, i.a[0])
                    if v is UNDEF:
                        s.fail(st, 'switch on an uninitialised value')
                    for cv, to in i.x[1]:
                        c = eq(Mod(v - cv, 1 << 32), ZERO) if not v.is_const() else bconst((v.const() - cv) % (1 << 32) == 0)
                        d = s.decide(st, c)
                        if d is True:
                            s.go(st, f, regs, bb, to, work, stops, stopped)
                            return
                        if d is None:
                            st2 = st.clone()
                            st2.assume(c)
                            s.go(st2, f, list(regs), bb, to, work, stops, stopped)
                            st.assume(not_(c))
                    s.go(st, f, regs, bb, i.x[0], work, stops, stopped)
                    return
                elif op == 'ret':
                    v = s.val(st, regs, i.a[0]) if i.a else None
                    for b2 in f.blocks[0]:
                        if b2.op == 'alloca':
                            r = regs[b2.res]
                            if r is not None:
                                st.mem.pop(r.obj, None)
                    fin.append((st, 'ret', v))
                    return
                elif op == 'unreachable':
                    fin.append((st, 'abort', None))
                    return
                else:
                    regs[i.res] = s.op(st, f, regs, i)
            except Fork as e:
                st2 = st.clone()
                st2.assume(e.cond)
                st.assume(not_(e.cond))
                work.append((st2, list(regs), bb, idx, bb))
                work.append((st, regs, bb, idx, bb))
                return
            idx += 1

    def branch(s, st, f, regs, bb, c, tgt, work, info, stops, stopped, fin):
        st2 = st.clone()
        base = st.ctx
        st.assume(c)
        st2.assume(not_(c))
        if s.merge_all or (s.merge_pred and s.merge_pred(c)):
            j = info.ipdom.get(bb)
            if j is not None:
                arms = []
                ok = True
                fin2 = []
                for sx, to in ((st, tgt[0]), (st2, tgt[1])):
                    rx = list(regs)
                    stp, w2 = [], []
                    s.go(sx, f, rx, bb, to, w2, stops | {j}, stp)
                    for (a, b, c2, d2, e2) in w2:
                        p2, f2 = s.region(a, f, b, c2, bb, stops | {j}, None)
                        stp += p2
                        fin2 += f2
                    arms.append(stp)
                a, b = arms
                fin.extend(fin2)
                if len(a) == 1 and len(b) == 1 and a[0][2] == j and b[0][2] == j:
                    m = s.merge(base, c, a[0], b[0])
                    if m is not None:
                        st, regs = m
                        if j in stops:
                            stopped.append((st, regs, j, a[0][3]))
                        else:
                            work.append((st, regs, j, 0, None))
                        return
                for x in a + b:
                    if x[2] in stops:
                        stopped.append(x)
                    else:
                        work.append((x[0], x[1], x[2], 0, None))
                return
        s.go(st2, f, list(regs), bb, tgt[1], work, stops, stopped)
        s.go(st, f, regs, bb, tgt[0], work, stops, stopped)

    # ---- merging two states
    def mergeval(s, c, a, b):
        if same(a, b):
            return a
        if a is None or b is None:
            return None
        if isinstance(a, Poly) and isinstance(b, Poly):
            return ite(c, a, b)
        if isinstance(a, Bool) and isinstance(b, Bool):
            return bite(c, a, b)
        if isinstance(a, Bool) or isinstance(b, Bool):
            a = B(a) if isinstance(a, Bool) else a
            b = B(b) if isinstance(b, Bool) else b
            if isinstance(a, Poly) and isinstance(b, Poly):
                return ite(c, a, b)
        if isinstance(a, Z) and isinstance(b, Z):
            return Z(ite(c, a.v, b.v))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is None:
                return Ptr(b.obj, b.off, or_(c, b.null))
            if b.obj is None:
                return Ptr(a.obj, a.off, or_(not_(c), a.null))
            if a.obj == b.obj:
                return Ptr(a.obj, ite(c, a.off, b.off), bite(c, a.null, b.null))
        raise KeyError

    def merge(s, base, c, A, Bx):
        (sa, ra, _, _), (sb, rb, _, _) = A, Bx
        try:
            mem = {}
            for k, oa in sa.mem.items():
                ob = sb.mem.get(k)
                if ob is None:
                    mem[k] = oa
                    continue
                if oa is ob or (oa.cells == ob.cells and not oa.segs and not ob.segs):
                    mem[k] = oa
                    continue
                o = oa.copy()
                if oa.kind != ob.kind:
                    return None
                if oa.kind == 'cells':
                    o.cells = s.mergecells(c, oa.cells, ob.cells)
                elif oa.kind == 'vec':
                    if oa.n != ob.n or len(oa.segs) != len(ob.segs):
                        return None
                    o.segs = []
                    for ga, gb in zip(oa.segs, ob.segs):
                        if ga.start != gb.start or ga.n != gb.n or ga.bv is not gb.bv:
                            return None
                        o.segs.append(Seg(ga.start, ga.n, s.mergecells(c, ga.cells, gb.cells), ga.bv))
                else:
                    if len(oa.segs) != len(ob.segs):
                        return None
                    o.segs = []
                    for ga, gb in zip(oa.segs, ob.segs):
                        if ga.start != gb.start or ga.n != gb.n or ga.kind != gb.kind:
                            return None
                        o.segs.append(BSeg(ga.start, ga.n, s.mergeval(c, ga.v, gb.v), ga.kind))
                mem[k] = o
            for k, ob in sb.mem.items():
                if k not in mem:
                    mem[k] = ob
            regs = list(ra)
            for i in range(len(ra)):
                if ra[i] is not rb[i]:
                    try:
                        regs[i] = s.mergeval(c, ra[i], rb[i]) if isinstance(ra[i], (Poly, Bool, Ptr)) and rb[i] is not None else None
                    except KeyError:
                        regs[i] = None
        except KeyError:
            return None
        st = sa
        st.mem = mem
        st.tok = object()
        fa = [f for f in sa.ctx.facts if f.id not in base.ids and f is not c]
        fb = [f for f in sb.ctx.facts if f.id not in base.ids and f is not not_(c)]
        ctx = base
        ids = {f.id for f in fb}
        com = [f for f in fa if f.id in ids]
        ctx = ctx.add(*com)
        for f in fa:
            if f.id not in ids:
                ctx = ctx.add(or_(not_(c), f))
        ida = {f.id for f in fa}
        for f in fb:
            if f.id not in ida:
                ctx = ctx.add(or_(c, f))
        st.ctx = ctx
        st.cnt = max(sa.cnt, sb.cnt)
        st.foralls = sa.foralls + tuple(x for x in sb.foralls if x not in sa.foralls)
        if sa.log != sb.log:
            st.log = sa.log + tuple(x for x in sb.log if x not in sa.log)
        return st, regs

    def mergecells(s, c, a, b):
        out = {}
        skip = set()
        if len(a) >= 6 and s.merge_cells_hook is not None:
            for k, (sz, v) in a.items():
                if sz == 16 and k in b and a[k][1] is not b[k][1]:
                    m = s.merge_cells_hook(s, c, a, b, k)
                    if m:
                        out.update(m)
                        skip.update(m)
        for k, (sz, v) in a.items():
            w = b.get(k)
            if k in skip:
                continue
            if w is None or (w[1] is None) != (v is None):
                if s.strict_merge and sz == 16:
                    raise KeyError
                if w is None:
                    continue
            if w[0] != sz:
                raise KeyError
            out[k] = (sz, s.mergeval(c, v, w[1]))
        if s.strict_merge:
            for k, (sz, v) in b.items():
                if sz == 16 and k not in a and v is not None and k not in skip:
                    raise KeyError
        return out

    # ------------------------------------------------------------ instructions
    def do_call(s, st, regs, i):
        callee, tys, _ = i.x
        if callee[0] == 'f':
            name = callee[1]
        elif callee[0] == 'r':
            fp = regs[callee[1]]
            if not isinstance(fp, FPtr):
                raise Unsupported('indirect call')
            name = fp.name
        else:
            raise Unsupported('call %s' % (callee,))
        if name.startswith('llvm.'):
            return [(st, 'ret', s.intrinsic(st, name, regs, i))]
        args = [s.val(st, regs, a) for a in i.a]
        kind = s.resolve(name)[0]
        if kind != 'inline':
            # handlers may fork half-way: work on a copy
            st2 = st.clone()
            return s.call(st2, name, args, i)
        return s.call(st, name, args, i)

    def intrinsic(s, st, name, regs, i):
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.stackrestore', 'llvm.assume')):
            return None
        if name.startswith('llvm.is.constant'):
            return FALSE
        a = [s.val(st, regs, x) for x in i.a]
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            n = a[2].const()
            if n is None:
                return s.lib['memcpy'](s, st, a, i)
            if n:
                s.copy_range(st, a[0], a[1], n)
            return None
        if name.startswith('llvm.memset'):
            return s.lib['memset'](s, st, a, i)
        if name.startswith('llvm.expect'):
            return a[0]
        if name.startswith('llvm.stacksave'):
            return NULL
        if name.startswith('llvm.eh.typeid'):
            return ZERO
        m = re.match(r'llvm\.(u|s)(min|max)\.i(\d+)', name)
        if m:
            w = int(m.group(3))
            cv = U if m.group(1) == 'u' else SG
            x, y = cv(a[0], w, st.ctx.rg), cv(a[1], w, st.ctx.rg)
            c = le(x, y) if m.group(2) == 'min' else le(y, x)
            return ite(c, x, y)
        m = re.match(r'llvm\.bswap\.i(\d+)', name)
        if m:
            w = int(m.group(1)) // 8
            u = U(a[0], w * 8, st.ctx.rg)
            r = ZERO
            for k in range(w):
                r = r + Mod(Div(u, 256 ** k), 256).scale(256 ** (w - 1 - k))
            return r
        m = re.match(r'llvm\.fsh([lr])\.i(\d+)', name)
        if m and a[0] == a[1] and a[2].const() is not None:
            w = int(m.group(2))
            u = U(a[0], w, st.ctx.rg)
            k = a[2].const() % w
            if m.group(1) == 'r':
                k = (w - k) % w
            return Mod(u.scale(1 << k), 1 << w) + Div(u, 1 << (w - k)) if k else u
        m = re.match(r'llvm\.abs\.i(\d+)', name)
        if m:
            x = SG(a[0], int(m.group(1)), st.ctx.rg)
            return ite(lt(x, ZERO), -x, x)
        if name.startswith('llvm.umul.with.overflow'):
            x = a[0] * a[1]
            w = int(name.rsplit('.i', 1)[1])
            return [Mod(x, 1 << w, st.ctx.rg), le(P(1 << w), x)]
        if name == 'llvm.trap':
            s.fail(st, 'trap')
        raise Unsupported('intrinsic ' + name)

    def width(s, v, w):
        return v

    def op(s, st, f, regs, i):
        op = i.op
        rg = st.ctx.rg
        if op == 'alloca':
            n = s.val(st, regs, i.a[0]).const()
            ty, sz = i.x
            if n is None:
                raise Unsupported('variable-length array')
            kind = 'cells'
            if (isinstance(ty, tuple) and ty[0] == 'a' and ty[3] == 8) or (n > 1 and ty == 8):
                kind = 'bytes'
            elif n > 1:
                sz = sz * n
            o = new_obj(st, kind, sz if n == 1 or kind == 'cells' else sz * n, 'local of ' + s.pretty(f.name))
            o.ty = 'stack'
            return Ptr(o.id, ZERO)
        a = [s.val(st, regs, x) for x in i.a]
        if op == 'gep':
            p = a[0]
            c, sym = i.x
            if isinstance(p, Poly) and p.const() == 0:
                p = NULL
            if not isinstance(p, Ptr):
                raise Unsupported('gep on %r' % (p,))
            off = p.off + c if c else p.off
            for v, w, sc in sym:
                x = s.val(st, regs, v)
                if x is UNDEF:
                    s.fail(st, 'uninitialised index')
                off = off + SG(x, w, rg).scale(sc)
            return Ptr(p.obj, off, p.null)
        if op == 'icmp':
            return s.icmp(st, i.x[0], i.x[1], a[0], a[1])
        if op in ('bitcast', 'freeze'):
            return a[0]
        if any(x is UNDEF for x in a):
            if op in ('trunc', 'zext', 'sext', 'and', 'or', 'insertvalue', 'extractvalue', 'select'):
                if op == 'insertvalue':
                    return s.insertv(a, i)
                return UNDEF
            s.fail(st, 'arithmetic on an uninitialised value')
        if op == 'insertvalue':
            return s.insertv(a, i)
        if op == 'extractvalue':
            v = a[0]
            for k in i.x:
                v = v[k]
            return v
        if op == 'select':
            c, x, y = a
            if isinstance(c, Poly):
                c = not_(eq(c, ZERO))
            d = decide(c, st.ctx)
            if d is not None:
                return x if d else y
            try:
                return s.mergeval(c, x, y)
            except KeyError:
                raise Fork(c)
        w = i.ty if isinstance(i.ty, int) else None
        if op == 'zext':
            v = a[0]
            if isinstance(v, Bool):
                return B(v)
            return U(v, i.x, rg)
        if op == 'sext':
            v = a[0]
            if isinstance(v, Bool):
                return -B(v)
            return SG(v, i.x, rg)
        if op == 'trunc':
            v = a[0]
            if isinstance(v, Ptr):
                v = s.addr(st, v)
            if isinstance(v, Bool):
                v = B(v)
            if w == 1:
                lo, hi = rng(v, rg)
                if lo >= 0 and hi <= 1:
                    return eq(v, ONE)
                return eq(Mod(v, 2), ONE)
            lo, hi = rng(v, rg)
            if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)) or lo >= 0 and hi < (1 << w):
                return v
            return Mod(v, 1 << w, rg)
        if op == 'ptrtoint':
            return s.addr(st, a[0])
        if op == 'inttoptr':
            if isinstance(a[0], Poly) and a[0].const() == 0:
                return NULL
            raise Unsupported('inttoptr')
        if w is None:
            raise Unsupported('op %s on %s' % (op, i.ty))
        x, y = a
        if w == 1:
            bx = x if isinstance(x, Bool) else not_(eq(x, ZERO))
            by = y if isinstance(y, Bool) else not_(eq(y, ZERO))
            if op == 'and':
                return and_(bx, by)
            if op == 'or':
                return or_(bx, by)
            if op in ('xor', 'add', 'sub'):
                if by is TRUE:
                    return not_(bx)
                if by is FALSE:
                    return bx
                return bite(bx, not_(by), by)
            raise Unsupported('i1 ' + op)
        if isinstance(x, Bool):
            x = B(x)
        if isinstance(y, Bool):
            y = B(y)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            # difference of two pointers into the same object
            if op == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
                return x.off - y.off
            x = s.addr(st, x) if isinstance(x, Ptr) else x
            y = s.addr(st, y) if isinstance(y, Ptr) else y
        if op in ('add', 'sub', 'mul'):
            nsw = i.x
            if nsw and (x.const() is None or y.const() is None):
                xs, ys = SG(x, w, rg), SG(y, w, rg)
                r = xs + ys if op == 'add' else xs - ys if op == 'sub' else xs * ys
                lo, hi = rng(r, rg)
                h = 1 << (w - 1)
                if not (lo >= -h and hi < h):
                    s.oblige(st, and_(le(P(-h), r), lt(r, P(h))), 'no signed overflow')
                return r
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            c = r.const()
            if c is not None:
                if nsw:
                    xs, ys = SG(x, w).const(), SG(y, w).const()
                    c2 = xs + ys if op == 'add' else xs - ys if op == 'sub' else xs * ys
                    if not -(1 << (w - 1)) <= c2 < 1 << (w - 1):
                        s.oblige(st, FALSE, 'no signed overflow')
                    return P(c2)
                return P(c % (1 << w))
            lo, hi = rng(r, rg)
            if lo >= 0 and hi < (1 << w):
                return r
            xu, yu = U(x, w, rg), U(y, w, rg)
            r = xu + yu if op == 'add' else xu - yu if op == 'sub' else xu * yu
            g = and_(le(ZERO, r), lt(r, P(1 << w)))
            if decide(g, st.ctx) is True:
                return r
            return Mod(r, 1 << w, rg)
        if op == 'shl':
            c = y.const()
            if c is None:
                r = SG(x, w, rg) * Pow(2, U(y, w, rg)) if i.x else U(x, w, rg) * Pow(2, U(y, w, rg))
            else:
                r = x.scale(1 << c)
            lo, hi = rng(r, rg)
            if lo >= 0 and hi < (1 << w):
                return r
            if i.x and c is not None:
                xs = SG(x, w, rg).scale(1 << c)
                h = 1 << (w - 1)
                s.oblige(st, and_(le(P(-h), xs), lt(xs, P(h))), 'no signed overflow')
                return xs
            return Mod(r, 1 << w, rg)
        if op == 'lshr':
            c = y.const()
            u = U(x, w, rg)
            return Div(u, 1 << c, rg) if c is not None else Div(u, Pow(2, U(y, w, rg)))
        if op == 'ashr':
            c = y.const()
            if c is None:
                raise Unsupported('ashr by a variable')
            return Div(SG(x, w, rg), 1 << c, rg)
        if op in ('and', 'or', 'xor'):
            xu, yu = U(x, w, rg), U(y, w, rg)
            xu, yu = simp_poly(xu, st.ctx) if not xu.is_const() else xu, yu
            if op == 'and':
                return And(xu, yu, w)
            if op == 'or':
                return Or(xu, yu, w)
            return Xor(xu, yu, w)
        if op in ('udiv', 'urem'):
            xu, yu = U(x, w, rg), U(y, w, rg)
            if decide(eq(yu, ZERO), st.ctx) is not False:
                s.oblige(st, not_(eq(yu, ZERO)), 'division by zero')
            return s.divrem(xu, yu, op == 'udiv', rg)
        if op in ('sdiv', 'srem'):
            xs, ys = SG(x, w, rg), SG(y, w, rg)
            if decide(eq(ys, ZERO), st.ctx) is not False:
                s.oblige(st, not_(eq(ys, ZERO)), 'division by zero')
            c = ys.const()
            if c and all(k % c == 0 for k in xs.m.values()):
                return Poly({m: k // c for m, k in xs.m.items()}) if op == 'sdiv' else ZERO
            if rng(xs, rg)[0] < 0 or rng(ys, rg)[0] < 0:
                # C division truncates toward zero
                if not s.need(st, le(ZERO, xs)):
                    if c is None or c < 0:
                        raise Unsupported('signed division')
                    q = -s.divrem(-xs, ys, True, rg)
                    return q if op == 'sdiv' else xs - q * ys
            return s.divrem(xs, ys, op == 'sdiv', rg)
        raise Unsupported('op ' + op)

    def divrem(s, x, y, quo, rg):
        c = y.const()
        d = c if c is not None else y
        return Div(x, d, rg) if quo else Mod(x, d, rg)

    def insertv(s, a, i):
        agg = a[0]
        n = len(i.ty[2]) if isinstance(i.ty, tuple) and i.ty[0] == 's' else i.ty[2]
        agg = list(agg) if isinstance(agg, list) else [UNDEF] * n
        agg[i.x[0]] = a[1]
        return agg

    def addr(s, st, p):
        """address of a pointer as an integer (objects are 16-byte aligned, addresses opaque)"""
        if isinstance(p, Poly):
            return p
        if isinstance(p, FPtr):
            raise Unsupported('function address')
        if p.obj is None or p.null is TRUE:
            return p.off
        o = st.mem.get(p.obj)
        base = getattr(o, 'name', '') and None
        al = s.align_of(o)
        b = S('addr:%s' % (p.obj,), 1, 1 << 46).scale(al) if al > 1 else S('addr:%s' % (p.obj,), 1, 1 << 46)
        if p.null is not FALSE:
            raise Fork(p.null)
        return b + p.off

    def align_of(s, o):
        return 16

    def icmp(s, st, pred, ty, a, b):
        if isinstance(a, FPtr) or isinstance(b, FPtr):
            if isinstance(a, FPtr) and isinstance(b, FPtr):
                r = a.name == b.name
            else:
                r = False
            return bconst(r == (pred == 'eq'))
        if a is UNDEF or b is UNDEF:
            s.fail(st, 'comparison of an uninitialised value')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Poly):
                a = NULL if a.const() == 0 else a
            if isinstance(b, Poly):
                b = NULL if b.const() == 0 else b
            if not isinstance(a, Ptr) or not isinstance(b, Ptr):
                raise Unsupported('pointer compared with an integer')
            if pred in ('eq', 'ne'):
                if a.obj is None:
                    r = b.null
                elif b.obj is None:
                    r = a.null
                elif a.obj == b.obj:
                    r = eq(a.off, b.off) if a.null is FALSE and b.null is FALSE else or_(and_(a.null, b.null), and_(not_(a.null), not_(b.null), eq(a.off, b.off)))
                elif any(x.obj in st.mem and st.mem[x.obj].al for x in (a, b)):
                    raise Unsupported('comparison of pointers to curve objects')
                else:
                    r = and_(a.null, b.null)
                return r if pred == 'eq' else not_(r)
            if a.obj != b.obj:
                raise Unsupported('ordering of unrelated pointers')
            x, y = a.off, b.off
            return {'ult': lt(x, y), 'ule': le(x, y), 'ugt': lt(y, x), 'uge': le(y, x)}[pred]
        w = ty
        if w == 1:
            x = a if isinstance(a, Bool) else not_(eq(a, ZERO))
            y = b if isinstance(b, Bool) else not_(eq(b, ZERO))
            if pred == 'ne':
                return bite(x, not_(y), y)
            if pred == 'eq':
                return bite(x, y, not_(y))
            raise Unsupported('i1 icmp')
        a = B(a) if isinstance(a, Bool) else a
        b = B(b) if isinstance(b, Bool) else b
        rg = st.ctx.rg
        if pred in ('eq', 'ne'):
            (al, ah), (bl, bh) = rng(a, rg), rng(b, rg)
            h = 1 << (w - 1)
            if (al >= 0 and bl >= 0) or (ah < h and bh < h and al >= -h and bl >= -h):
                r = eq(a, b, rg)
            else:
                r = eq(U(a, w, rg), U(b, w, rg), rg)
            return r if pred == 'eq' else not_(r)
        cv = U if pred[0] == 'u' else SG
        x, y = cv(a, w, rg), cv(b, w, rg)
        p = pred[1:]
        if p == 'lt':
            return lt(x, y, rg)
        if p == 'le':
            return le(x, y, rg)
        if p == 'gt':
            return lt(y, x, rg)
        return le(y, x, rg)


def UNDEF_BYTE(eng, st):
    eng.fail(st, 'read of uninitialised bytes')
