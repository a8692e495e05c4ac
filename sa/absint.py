"""Abstract interpreter over LLVM IR.

Domain: disjunctions (bounded trace partitioning) of
    convex polyhedra over integer symbols  x  symbolic memory  x  ghost automaton
Integers are linear expressions, pointers are (region, linear offset), memory is a
list of writes per region that is searched with domain entailment.  Loops that do
not resolve within the unrolling bound are closed with join + widening at their
header, so every result covers all executions (subject to the stated models of
external functions).  Nothing is executed and no path is handed to a solver.
"""
from math import gcd
import heapq
from .poly import Lin, K, var, fresh, Poly, INF, names
from . import ir


class AnalysisError(Exception):
    """the analysis itself could not be carried out"""


class Region:
    __slots__ = ('name', 'size', 'kind', 'init', 'nonnull', 'ty', 'align', 'n')
    count = 0

    def __init__(self, name, size=None, kind='obj', init='lazy', nonnull=True):
        self.name, self.size, self.kind = name, size, kind
        self.init, self.nonnull = init, nonnull
        Region.count += 1
        self.n = Region.count
        self.ty = None
        self.align = 1

    def __repr__(self):
        return '<%s>' % self.name


NULLR = Region('null', 0, 'null', 'undef', False)


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o=K(0)):
        self.r, self.o = r, o

    def __repr__(self):
        return '&%s[%r]' % (self.r.name, self.o)

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.r is self.r and x.o == self.o

    def __hash__(self):
        return hash((id(self.r), self.o))


NULL = Ptr(NULLR)


class Opq:
    """uninterpreted value (floating point, unknown aggregate)"""
    __slots__ = ('i', 'tag')
    n = 0

    def __init__(self, tag=None):
        Opq.n += 1
        self.i, self.tag = Opq.n, tag

    def __repr__(self):
        return '?%d%s' % (self.i, ':%s' % (self.tag,) if self.tag else '')


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()
ANY = Opq('any')       # an integer nobody looks at


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self.v))

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v

    def __hash__(self):
        return hash(self.v)


class Cond:
    """undecided boolean: op in {'ge','eq','ne'} applied to e (vs 0)"""
    __slots__ = ('op', 'e')

    def __init__(self, op, e):
        self.op, self.e = op, e

    def neg(self):
        if self.op == 'ge':
            return Cond('ge', -self.e - 1)
        return Cond('ne' if self.op == 'eq' else 'eq', self.e)

    def __repr__(self):
        return '(%r %s 0)' % (self.e, {'ge': '>=', 'eq': '==', 'ne': '!='}[self.op])

    def __eq__(self, o):
        return isinstance(o, Cond) and o.op == self.op and o.e == self.e

    def __hash__(self):
        return hash((self.op, self.e))


class W:
    """one write: bytes [off, off+size) of a region.  kind: val | copy | fill | top"""
    __slots__ = ('off', 'size', 'kind', 'v', 'prev', 'id', 'who')
    n = 0

    def __init__(self, off, size, kind, v, prev, who=None):
        W.n += 1
        self.off, self.size, self.kind, self.v, self.prev = off, size, kind, v, prev
        self.id = W.n
        self.who = who


class State:
    __slots__ = ('p', 'mem', 'ghost', 'trace', 'taint')

    def __init__(self):
        self.p = Poly()
        self.mem = {}
        self.ghost = {}
        self.trace = None
        self.taint = frozenset()

    def copy(self):
        s = State()
        s.p = self.p.copy()
        s.mem = dict(self.mem)
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.taint = self.taint
        return s

    def path(self, limit=40):
        out = []
        t = self.trace
        while t is not None and len(out) < limit:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out


U64 = (0, (1 << 64) - 1)


class Interp:
    def __init__(self, mods, unroll=3, max_steps=400000, max_states=6000):
        self.mods = mods if isinstance(mods, list) else [mods]
        self.unroll = unroll
        self.max_steps = max_steps
        self.max_states = max_states
        self.steps = 0
        self.greg = {}
        self.fnreg = {}
        self.lazy = {}
        self.divmemo = {}
        self.opmemo = {}
        self.slices = {}
        self.models = {}
        self.prefix_models = []
        self.on_load = None
        self.on_store = None
        self.on_call = None
        self.merge_key = None       # None: full partitioning
        self.loop_key = None        # partitioning of loop invariants only
        self.ret_min = 1
        self.flag_partition = False  # keep finite-valued phis apart at joins
        self.join_templates = None  # (state, env) -> expressions tried as invariants
        self.no_descend = None
        self.violations = []
        self.unknowns = []
        self.oblig = {}
        self.visited_fns = set()
        self.depth = 0
        self.max_depth = 60
        self.call_sites = 0
        self.live_cache = {}
        self.ret_merge = None
        self.stack = []
        self.locals = [[]]
        self.envs = []
        self.keep_unwind = False    # follow exceptions thrown by plain calls out of the function
        self.unwound = []
        self.widen_after = 2
        self.part_env = None    # extra partition of the states merged at a block: f(fn, state, env)
        self.branch_flags_only = False
        self.cap_counts = False     # share inner loop invariants between outer iterations
        self.gc_syms = False        # project dead symbols away at joins
        self.unmodelled = {}
        self.initdone = set()
        self.bigstr = 4096
        from . import models
        models.install(self)

    # ------------------------------------------------------------ reporting
    def where(self, ins):
        if ins is None:
            return '?'
        return self.mod_of(ins.fn).loc(ins)

    def mod_of(self, fn):
        return fn.mod

    def report(self, st, ins, rule, msg, tainted=False):
        rec = {'rule': rule, 'where': self.where(ins) if ins is not None else '?',
               'function': ins.fn.pretty if ins is not None else '?',
               'msg': msg, 'path': st.path() if st is not None else []}
        (self.unknowns if tainted else self.violations).append(rec)

    def ob(self, label, ok):
        a = self.oblig.setdefault(label, [0, 0])
        a[0] += 1
        if ok:
            a[1] += 1

    def require_ge(self, st, ins, label, e, msg):
        """obligation e >= 0"""
        ok = st.p.entails(e)
        self.ob(label, ok)
        if not ok:
            self.report(st, ins, label, '%s  [cannot show %r >= 0; %s]' % (
                msg, st.p.norm(e), self.explain(st, e)), self.is_tainted(st, e))
        return ok

    def require(self, st, ins, label, ok, msg, tainted=False):
        self.ob(label, ok)
        if not ok:
            self.report(st, ins, label, msg, tainted)
        return ok

    def is_tainted(self, st, e):
        if not st.taint:
            return False
        e = st.p.norm(e)
        return any(s in st.taint for s in e.syms())

    def explain(self, st, e):
        e = st.p.norm(e)
        c = st.p._cone(e)
        return 'given ' + ', '.join('%r>=0' % x for x in sorted(c, key=repr)[:14])

    # ------------------------------------------------------------ symbols
    def sym(self, st, name, lo, hi):
        s = fresh(name)
        st.p.declare(s, lo, hi)
        return var(s)

    def top_int(self, st, w, name=None, taint=False):
        s = fresh(name)
        st.p.declare(s, 0, (1 << w) - 1) if w > 1 else st.p.declare(s, 0, 1)
        if taint:
            st.taint = st.taint | {s}
        return var(s)

    def top(self, st, ty, name=None, taint=False):
        m = self.mods[0]
        if ty.k == 'named':
            for m in self.mods:
                if ty.a in m.types:
                    break
            ty = m.resolve(ty)
        if ty.k == 'int':
            return self.top_int(st, ty.a, name, taint)
        if ty.k == 'ptr':
            r = Region(name or 'obj%d' % fresh(), None)
            r.nonnull = False
            return Ptr(r)
        if ty.k == 'struct':
            return Agg([self.top(st, t, taint=taint) for t in ty.a])
        if ty.k == 'arr' and ty.a <= 16:
            return Agg([self.top(st, ty.b, taint=taint) for _ in range(ty.a)])
        if ty.k == 'void':
            return None
        return Opq(name)

    def coerce(self, st, v, ty):
        if v is ANY:
            return self.top(st, ty, 'any')
        """turn UNDEF/Opq into something usable for ty"""
        if v is UNDEF:
            return self.top(st, ty, 'undef')
        return v

    # ------------------------------------------------------------ int helpers
    def as_u(self, st, e, w):
        """[(state, e')] with e' the unsigned reading"""
        if e is ANY:
            return [(st, self.top_int(st, w, 'any'))]
        lo, hi = st.p.bounds(e)
        M = 1 << w
        if lo >= 0 and hi < M:
            return [(st, e)]
        if hi < 0 and lo >= -M:
            return [(st, e + M)]
        if lo >= -M and hi < M:
            out = []
            if st.p.entails(e):
                return [(st, e)]
            if st.p.entails(-e - 1):
                return [(st, e + M)]
            a = st.copy()
            if a.p.assume(e):
                out.append((a, e))
            b = st.copy()
            if b.p.assume(-e - 1):
                out.append((b, e + M))
            return out
        return [(st, self.mod(st, e, w))]

    def as_s(self, st, e, w):
        if e is ANY:
            e = self.top_int(st, w, 'any')
        lo, hi = st.p.bounds(e)
        H = 1 << (w - 1)
        M = 1 << w
        if lo >= -H and hi < H:
            return [(st, e)]
        if lo >= H and hi < M:
            return [(st, e - M)]
        if lo >= -H and hi < M:
            if st.p.entails(K(H - 1) - e):
                return [(st, e)]
            if st.p.entails(e - H):
                return [(st, e - M)]
            out = []
            a = st.copy()
            if a.p.assume(K(H - 1) - e):
                out.append((a, e))
            b = st.copy()
            if b.p.assume(e - H):
                out.append((b, e - M))
            return out
        if lo >= -M and hi < M:
            out = []
            for l, h, d in ((-H, H - 1, 0), (H, M - 1, -M), (-M, -H - 1, M)):
                a = st.copy()
                if a.p.assume(e - l) and a.p.assume(K(h) - e):
                    out.append((a, e + d))
            return out
        r = self.mod(st, e, w)
        out = []
        a = st.copy()
        if a.p.assume(r) and a.p.assume(K(H - 1) - r):
            out.append((a, r))
        b = st.copy()
        if b.p.assume(r - H) and b.p.assume(K(M - 1) - r):
            out.append((b, r - M))
        return out

    def divmod_c(self, st, e, c):
        """e = c*q + r, 0 <= r < c  (floor)"""
        e = st.p.norm(e)
        lo, hi = st.p.bounds(e)
        if c == 1:
            return e, K(0)
        if lo >= 0 and hi < c:
            return K(0), e
        A = Lin(e.c // c * c, tuple((s, k) for s, k in e.t if k % c == 0))
        B = e - A
        qa = Lin(A.c // c, tuple((s, k // c) for s, k in A.t))
        if not B.t and 0 <= B.c < c:
            return qa, B
        lo, hi = st.p.bounds(B)
        if lo >= 0 and hi < c:
            return qa, B
        if lo >= -c and hi < 0:
            return qa - 1, B + c
        if lo == -INF or hi == INF or hi - lo > c:
            # reduce coefficients modulo c to expose cancellations (two's complement)
            B2 = Lin(B.c, tuple((s, ((k % c) if (k % c) <= c // 2 else (k % c) - c)) for s, k in B.t))
            D = B - B2
            if D.t:
                q2, r2 = self.divmod_c(st, B2, c)
                return qa + Lin(D.c // c, tuple((s, k // c) for s, k in D.t)) + q2, r2
        key = (B, c)
        m = self.divmemo.get(key)
        if c > 256 and len(B.t) <= 8 and lo >= 0 and (m is None or m[0] not in st.p.bnd and m[0] not in st.p.sub) \
                and st.p.entails(K(c - 1) - B):
            return qa, B
        if m is None:
            m = (fresh('q(%r/%d)' % (B, c)), fresh('r(%r%%%d)' % (B, c)))
            self.divmemo[key] = m
        q, r = m
        if q not in st.p.bnd and q not in st.p.sub:
            ql = lo // c if lo != -INF else -INF
            qh = hi // c if hi != INF else INF
            st.p.declare(q, ql, qh)
        if r not in st.p.bnd and r not in st.p.sub:
            st.p.declare(r, 0, c - 1)
            st.p.assume_eq(var(r) - (B - var(q).scale(c)))
        if st.taint and any(s in st.taint for s in B.syms()):
            st.taint = st.taint | {q, r}
        return qa + var(q), st.p.norm(var(r))

    def mod(self, st, e, w):
        return self.divmod_c(st, e, 1 << w)[1]

    def wrap(self, st, e, w):
        """normalise the mathematical result e of a w-bit operation"""
        lo, hi = st.p.bounds(e)
        H, M = 1 << (w - 1), 1 << w
        if lo >= -H and hi < M:
            return [(st, e)]
        if st.p.entails(e + H) and st.p.entails(K(M - 1) - e):
            return [(st, e)]
        if lo >= -M - H and hi < 2 * M:
            out = []
            s0 = st.copy()
            if s0.p.assume(e + H) and s0.p.assume(K(M - 1) - e):
                out.append((s0, e))
            s1 = st.copy()
            if s1.p.assume(e - M):
                out.append((s1, e - M))
            s2 = st.copy()
            if s2.p.assume(-e - H - 1):
                out.append((s2, e + M))
            return out
        return [(st, self.mod(st, e, w))]

    def and_const(self, st, e, c, w):
        c &= (1 << w) - 1
        if c == 0:
            return K(0)
        full = (1 << w) - 1
        if c == full:
            return e
        # fewer runs in the complement?
        def runs(x):
            out, i = [], 0
            while x >> i:
                if (x >> i) & 1:
                    j = i
                    while (x >> j) & 1:
                        j += 1
                    out.append((i, j))
                    i = j
                else:
                    i += 1
            return out
        rc, rn = runs(c), runs(full & ~c)
        if len(rn) < len(rc):
            x = self.mod(st, e, w)
            return x - self.and_const(st, x, full & ~c, w)
        tot = K(0)
        for lo, hi in rc:
            x = self.mod(st, e, hi)
            if lo:
                q, r = self.divmod_c(st, x, 1 << lo)
                x = x - r
            tot = tot + x
        return tot

    def bit_and(self, st, a, b, w):
        if isinstance(a, Lin) and isinstance(b, Lin):
            a, b = st.p.norm(a), st.p.norm(b)
            if b.is_const():
                return self.and_const(st, a, b.c, w)
            if a.is_const():
                return self.and_const(st, b, a.c, w)
            if a == b:
                return a
            # disjoint bits?
            for x, y in ((a, b), (b, a)):
                lo, hi = st.p.bounds(y)
                if lo >= 0 and hi != INF:
                    k = hi.bit_length() if hi else 0
                    P2 = 1 << k
                    if x.c % P2 == 0 and all(c % P2 == 0 for _, c in x.t):
                        return K(0)
            x, y = self.bits_of(st, a), self.bits_of(st, b)
            if x is not None and y is not None and not x & y:
                return K(0)
        return None

    def bits_of(self, st, e):
        """mask of the bits a non-negative expression can have, or None"""
        if e.c < 0:
            return None
        m, low, top, clash = e.c, None, e.c, False
        for v, k in e.t:
            lo, hi = st.p.bounds(var(v))
            if k <= 0 or lo < 0 or hi == INF:
                return None
            j = (k & -k).bit_length() - 1
            low = j if low is None else min(low, j)
            top += k * hi
            b = ((1 << ((k >> j) * hi).bit_length()) - 1) << j
            clash |= bool(m & b)
            m |= b
        if clash:
            if e.c:
                low = min(low, (e.c & -e.c).bit_length() - 1)
            m = ((1 << top.bit_length()) - 1) & ~((1 << low) - 1)
        return m

    # ------------------------------------------------------------ booleans
    def split_bool(self, st, v):
        """[(state, 0/1)]"""
        if isinstance(v, Lin):
            v = st.p.norm(v)
            if v.is_const():
                return [(st, v.c & 1)]
            v = Cond('ne', v)
        if isinstance(v, Cond):
            out = []
            for s in self.assume(st.copy(), v):
                out.append((s, 1))
            for s in self.assume(st.copy(), v.neg()):
                out.append((s, 0))
            return out
        a = st.copy()
        b = st.copy()
        return [(a, 1), (b, 0)]

    def assume(self, st, c):
        """states where the condition holds (st may be mutated)"""
        if isinstance(c, Lin):
            c = Cond('ne', c)
        e = c.e
        if c.op == 'ge':
            return [st] if st.p.assume(e) else []
        if c.op == 'eq':
            return [st] if st.p.assume_eq(e) else []
        out = []
        e = st.p.norm(e)
        if e.is_const():
            return [st] if e.c else []
        lo, hi = st.p.bounds(e)
        if lo > 0 or hi < 0:
            return [st]
        if lo >= 0:
            return [st] if st.p.assume(e - 1) else []
        if hi <= 0:
            return [st] if st.p.assume(-e - 1) else []
        a = st.copy()
        if a.p.assume(e - 1):
            out.append(a)
        if st.p.assume(-e - 1):
            out.append(st)
        return out

    def decide(self, st, c):
        """Cond -> K(1)/K(0) if entailed, else c"""
        e = st.p.norm(c.e)
        if c.op == 'ge':
            if st.p.entails(e):
                return K(1)
            if st.p.entails(-e - 1):
                return K(0)
        else:
            t, f = (K(1), K(0)) if c.op == 'eq' else (K(0), K(1))
            if e.is_const():
                return t if e.c == 0 else f
            lo, hi = st.p.bounds(e)
            if lo > 0 or hi < 0:
                return f
            if st.p.entails(e - 1) or st.p.entails(-e - 1):
                return f
            if st.p.entails_eq(e):
                return t
        return Cond(c.op, e)

    def to_int(self, st, v):
        """materialise Cond as 0/1: [(state, Lin)]"""
        if isinstance(v, Cond):
            return [(s, K(b)) for s, b in self.split_bool(st, v)]
        return [(st, v)]

    # ------------------------------------------------------------ memory
    def region_of_global(self, name):
        r = self.greg.get(name)
        if r is None:
            for m in self.mods:
                if name in m.fns or name in m.decls:
                    r = Region('@' + name, 0, 'fn')
                    break
            else:
                size = None
                const, v, ty = False, None, None
                for m in self.mods:
                    if name in m.globals:
                        c2, v2, t2 = m.global_init(name)
                        if v is None:
                            const, v, ty = c2, v2, t2
                            if ty is not None and ty.k != 'opaque':
                                size = m.sizeof(ty)
                            mm = m
                r = Region('@' + name, size, 'global')
                if const and v is not None:
                    r.init = ('const', mm, v, ty)
                r.ty = ty
            self.greg[name] = r
        return r

    def lazy_val(self, st, r, off, size, ty):
        """initial content of region r"""
        if r.init == 'undef':
            return self.top(st, ty, 'uninit(%s)' % r.name)
        if r.init == 'zero':
            return self.zero(ty)
        if isinstance(r.init, tuple) and r.init[0] == 'const':
            o = st.p.norm(off)
            if o.is_const():
                v = self.const_read(st, r.init[1], r.init[2], r.init[3], o.c, ty)
                if v is not None:
                    return v
        key = (id(r), st.p.norm(off), size, ty.k)
        v = self.lazy.get(key)
        if v is None:
            nm = '%s[%r]' % (r.name, off)
            if ty.k == 'int':
                s = fresh(nm)
                v = (var(s), r, s, ty.a)
            elif ty.k == 'ptr':
                rr = Region('*' + nm, None)
                rr.nonnull = False
                v = (Ptr(rr), r, None, 0)
            else:
                v = (Opq(nm), r, None, 0)
            self.lazy[key] = v
        if v[2] is not None:
            st.p.declare(v[2], 0, (1 << v[3]) - 1)
        return v[0]

    def zero(self, ty):
        for m in self.mods:
            try:
                ty = m.resolve(ty)
                break
            except KeyError:
                continue
        if ty.k == 'int':
            return K(0)
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'struct':
            return Agg([self.zero(t) for t in ty.a])
        if ty.k == 'arr' and ty.a <= 64:
            return Agg([self.zero(ty.b) for _ in range(ty.a)])
        return Opq('0.0')

    def const_read(self, st, m, v, ty, off, want):
        ty = m.resolve(ty)
        if off == 0 and v.k in ('int', 'null', 'global', 'cexpr', 'float') and \
                m.sizeof(ty) == m.sizeof(want):
            return self.val(st, {}, v)
        if v.k == 'zero':
            return self.zero(want)
        if v.k == 'str':
            b = ir.dec_str(v.v)
            n = m.sizeof(want)
            if want.k == 'int' and off + n <= len(b):
                return K(int.from_bytes(b[off:off + n], 'little'))
            return None
        if v.k == 'agg':
            if ty.k in ('arr', 'vec'):
                es = m.sizeof(ty.b)
                i = off // es
                if 0 <= i < len(v.v):
                    return self.const_read(st, m, v.v[i], ty.b, off - i * es, want)
            if ty.k == 'struct':
                offs = m.layout(ty)[2]
                for i in range(len(offs) - 1, -1, -1):
                    if offs[i] <= off:
                        if off >= offs[i] + m.sizeof(ty.a[i]):
                            return self.zero(want)
                        return self.const_read(st, m, v.v[i], ty.a[i], off - offs[i], want)
        return None

    def store(self, st, ptr, v, size, ins=None):
        if not isinstance(ptr, Ptr):
            return
        off = st.p.norm(ptr.o)
        if not isinstance(size, Lin):
            size = K(size)
        if isinstance(v, Lin):
            v = st.p.norm(v)
        head = st.mem.get(ptr.r)
        # drop an exactly overwritten newest cell to keep the list short
        prev = head
        if prev is not None and prev.kind == 'val' and prev.off == off and prev.size == size:
            prev = prev.prev
        elif prev is not None and off.is_const() and size.is_const():
            prev = self._prune(prev, off.c, size.c)
        st.mem[ptr.r] = W(off, size, 'val', v, prev, ins)

    def _prune(self, head, off, size):
        """remove one older const write fully covered by [off,off+size), if all newer
        entries are const-offset"""
        chain = []
        n = head
        k = 0
        while n is not None and k < 64:
            if not (n.off is not None and n.off.is_const() and n.size is not None and n.size.is_const()):
                return head
            if off <= n.off.c and n.off.c + n.size.c <= off + size:
                r = n.prev
                for c in reversed(chain):
                    r = W(c.off, c.size, c.kind, c.v, r, c.who)
                return r
            chain.append(n)
            n = n.prev
            k += 1
        return head

    def havoc(self, st, r, off=None, size=None, who=None):
        st.mem[r] = W(off, size, 'top', None, st.mem.get(r), who)

    def load(self, st, ptr, ty, m=None):
        """abstract load -> value"""
        m = m or self.mods[0]
        rty = m.resolve(ty)
        size = m.sizeof(rty)
        if rty.k in ('struct', 'arr') and size <= 256:
            out = []
            if rty.k == 'struct':
                offs = m.layout(rty)[2]
                for t, o in zip(rty.a, offs):
                    out.append(self.load(st, Ptr(ptr.r, ptr.o + o), t, m))
            else:
                es = m.sizeof(rty.b)
                for i in range(rty.a):
                    out.append(self.load(st, Ptr(ptr.r, ptr.o + i * es), rty.b, m))
            return Agg(out)
        return self._load(st, ptr.r, st.p.norm(ptr.o), size, rty, st.mem.get(ptr.r))

    def _load(self, st, r, off, size, ty, head):
        n = head
        guard = 0
        while n is not None:
            guard += 1
            if guard > 3000:
                break
            if n.off is None:
                return self._topload(st, r, off, size, ty, n)
            d = off - n.off
            d = st.p.norm(d)
            ns = st.p.norm(n.size) if n.size is not None else None
            if d.is_const() and ns is not None and ns.is_const():
                dc, nsz = d.c, ns.c
                if dc >= nsz or dc + size <= 0:
                    n = n.prev
                    continue
                if dc >= 0 and dc + size <= nsz:
                    return self._slice(st, r, n, dc, size, ty, off)
                return self._assemble(st, r, off, size, ty, n, head)
            # symbolic: disjoint?
            if ns is not None and st.p.entails(d - ns):
                n = n.prev
                continue
            if st.p.entails(-d - size):
                n = n.prev
                continue
            # contained?
            if ns is not None and st.p.entails(d) and st.p.entails(ns - d - size):
                return self._slice(st, r, n, d, size, ty, off)
            return self._topload(st, r, off, size, ty, n)
        return self.lazy_val(st, r, off, size, ty)

    def _topload(self, st, r, off, size, ty, n):
        key = ('top', n.id, id(r), st.p.norm(off), size, ty.k)
        v = self.lazy.get(key)
        if v is None:
            nm = 'havoc%d(%s[%r])' % (n.id, r.name, off)
            if ty.k == 'int':
                s = fresh(nm)
                v = (var(s), s, ty.a)
            elif ty.k == 'ptr':
                rr = Region(nm)
                rr.nonnull = False
                v = (Ptr(rr), None, 0)
            else:
                v = (Opq(nm), None, 0)
            self.lazy[key] = v
        if v[1] is not None:
            st.p.declare(v[1], 0, (1 << v[2]) - 1)
        return v[0]

    def _slice(self, st, r, n, d, size, ty, off):
        """bytes [d, d+size) of write n"""
        if n.kind == 'top':
            return self._topload(st, r, off, size, ty, n)
        if n.kind == 'fill':
            v = n.v
            if isinstance(v, Lin):
                v = st.p.norm(v)
                if v.is_const() and ty.k == 'int':
                    b = v.c & 255
                    return K(int.from_bytes(bytes([b]) * size, 'little'))
                if v.is_const() and v.c == 0:
                    return self.zero(ty)
                if size == 1:
                    return v
            return self._topload(st, r, off, size, ty, n)
        if n.kind == 'copy':
            sr, so, snap = n.v
            return self._load(st, sr, st.p.norm(so + d), size, ty, snap)
        v = n.v
        if isinstance(d, Lin):
            if not d.is_const():
                if st.p.entails_eq(d):
                    d = 0
                else:
                    return self._topload(st, r, off, size, ty, n)
            else:
                d = d.c
        nsz = n.size.c if n.size.is_const() else None
        if d == 0 and nsz == size:
            if isinstance(v, Cond):
                return v
            return v
        if isinstance(v, Agg):
            return self._topload(st, r, off, size, ty, n)
        if isinstance(v, Lin) and ty.k == 'int':
            x = v
            if d:
                x, _ = self.divmod_c(st, x, 1 << (8 * d))
            return self.mod(st, x, 8 * size)
        if v is ANY and ty.k == 'int':
            return ANY if ty.a > 8 else self.top(st, ty, 'any')
        if isinstance(v, (Opq, Ptr)) and ty.k == 'int':
            key = ('opslice', v if isinstance(v, Ptr) else v.i, d, size)
            s = self.opmemo.get(key)
            if s is None:
                s = fresh('bytes%d+%d(%r)' % (d, size, v))
                self.opmemo[key] = s
                self.slices[s] = (v, d, size)
            st.p.declare(s, 0, (1 << (8 * size)) - 1)
            return var(s)
        return self._topload(st, r, off, size, ty, n)

    def _assemble(self, st, r, off, size, ty, n, head):
        """load spanning several writes: per-byte concatenation"""
        if size > 16:
            return self._topload(st, r, off, size, ty, n)
        tot = K(0)
        parts = []
        for i in range(size):
            b = self._load(st, r, st.p.norm(off + i), 1, ir.ity(8), head)
            if not isinstance(b, Lin):
                return self._topload(st, r, off, size, ty, n)
            b = self.mod(st, b, 8)
            parts.append(b)
            tot = tot + b.scale(1 << (8 * i))
        if ty.k == 'int':
            return tot
        # all bytes are slices of one opaque value: that value
        src = None
        for i, b in enumerate(parts[:10] if (ty.k != 'ptr' and size == 16) else parts):
            sl = self.slices.get(b.t[0][0]) if (len(b.t) == 1 and b.c == 0 and b.t[0][1] == 1) else None
            if sl is None or sl[1] != i or sl[2] != 1 or (src is not None and sl[0] is not src):
                src = None
                break
            src = sl[0]
        if src is not None and isinstance(src, (Opq if ty.k != 'ptr' else Ptr)):
            return src
        # pointer or float rebuilt from bytes
        key = ('rebuild', tot, ty.k)
        v = self.opmemo.get(key)
        if v is None:
            v = Opq('rebuilt') if ty.k != 'ptr' else Ptr(Region('rebuilt'))
            self.opmemo[key] = v
        return v

    def memcpy(self, st, dst, src, n, ins=None):
        """n: Lin"""
        n = st.p.norm(n)
        if n.is_const() and n.c == 0:
            return
        if not isinstance(dst, Ptr):
            return
        if not isinstance(src, Ptr):
            self.havoc(st, dst.r, dst.o, n, ins)
            return
        head = st.mem.get(dst.r)
        st.mem[dst.r] = W(st.p.norm(dst.o), n, 'copy',
                          (src.r, st.p.norm(src.o), st.mem.get(src.r)), head, ins)

    # ------------------------------------------------------------ operands
    def val(self, st, env, v):
        k = v.k
        if k == 'local':
            try:
                return env[v.v]
            except KeyError:
                raise AnalysisError('undefined SSA value %s' % v.v)
        if k == 'int':
            return K(v.v)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'global':
            return Ptr(self.region_of_global(v.v[1:]))
        if k == 'float':
            key = ('float', v.v)
            r = self.opmemo.get(key)
            if r is None:
                r = self.opmemo[key] = Opq(v.v)
            return r
        if k == 'zero':
            return self.zero(v.ty)
        if k == 'agg':
            return Agg([self.val(st, env, x) for x in v.v])
        if k == 'cexpr':
            op, ety, args = v.v
            if op == 'getelementptr':
                base = self.val(st, env, args[0])
                return self.gep(st, base, ety, [self.val(st, env, a) for a in args[1:]],
                                [a.ty for a in args[1:]], self.mods[0])[0][1]
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return self.val(st, env, args[0])
            if op in ('trunc',):
                x = self.val(st, env, args[0])
                return x
            if op in ('sub', 'add'):
                a, b = self.val(st, env, args[0]), self.val(st, env, args[1])
                if isinstance(a, Lin) and isinstance(b, Lin):
                    return a - b if op == 'sub' else a + b
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and op == 'sub':
                    return a.o - b.o
            return Opq('cexpr')
        if k == 'meta':
            return Opq('meta')
        if k == 'str':
            return Opq('str')
        return Opq(k)

    def gep(self, st, base, sty, idx, tys, m):
        """[(state, Ptr)]"""
        if base is UNDEF or not isinstance(base, Ptr):
            if isinstance(base, Lin):
                # integer used as pointer
                base = Ptr(Region('int2ptr'), base)
            else:
                base = Ptr(Region('unknown'))
        off = base.o
        sts = [(st, off)]
        ty = sty
        for n, (i, t) in enumerate(zip(idx, tys)):
            nxt = []
            for s, o in sts:
                if n == 0:
                    sz = m.sizeof(ty)
                    for s2, i2 in self._index(s, i, t):
                        nxt.append((s2, o + i2.scale(sz)))
                else:
                    rty = m.resolve(ty)
                    if rty.k == 'struct':
                        c = s.p.norm(i)
                        nxt.append((s, o + m.layout(rty)[2][c.c]))
                    else:
                        sz = m.sizeof(rty.b)
                        for s2, i2 in self._index(s, i, t):
                            nxt.append((s2, o + i2.scale(sz)))
            if n > 0:
                rty = m.resolve(ty)
                if rty.k == 'struct':
                    ty = rty.a[st.p.norm(i).c]
                else:
                    ty = rty.b
            sts = nxt
        return [(s, Ptr(base.r, s.p.norm(o))) for s, o in sts]

    def _index(self, st, i, t):
        if isinstance(i, Cond):
            return self.to_int(st, i)
        if not isinstance(i, Lin):
            if isinstance(i, Ptr):
                i = Lin(0)  # pointer used as index: unknown
            return [(st, self.top_int(st, 32, 'idx', True))]
        return self.as_s(st, i, t.a)

    # ------------------------------------------------------------ liveness
    def liveness(self, fn):
        k = id(fn)
        if k in self.live_cache:
            return self.live_cache[k]
        use, deff, phiuse = {}, {}, {}
        for b in fn.blocks.values():
            u, d = set(), set()
            for i in b.ins:
                if i.op == 'phi':
                    for v, l in i.x:
                        if v.k == 'local':
                            phiuse.setdefault(l, set()).add(v.v)
                    d.add(i.res)
                    continue
                for v in self._locals(i):
                    if v not in d:
                        u.add(v)
                if i.res:
                    d.add(i.res)
            use[b.name], deff[b.name] = u, d
        livein = {b: set() for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(list(fn.blocks.values())):
                out = set(phiuse.get(b.name, ()))
                for s in b.succs:
                    sb = fn.blocks[s]
                    out |= livein[s]
                n = use[b.name] | (out - deff[b.name])
                if n != livein[b.name]:
                    livein[b.name] = n
                    ch = True
        self.live_cache[k] = livein
        return livein

    def _locals(self, i):
        out = []

        def rec(v):
            if v is None:
                return
            if v.k == 'local':
                out.append(v.v)
            elif v.k == 'agg':
                for x in v.v:
                    rec(x)
            elif v.k == 'cexpr':
                for x in v.v[2]:
                    if isinstance(x, ir.V):
                        rec(x)
        for v in i.ops:
            rec(v)
        if i.op in ('call', 'invoke'):
            rec(i.x['callee'])
        return out

    def loop_headers(self, fn):
        k = ('lh', id(fn))
        if k not in self.live_cache:
            h = set()
            for b in fn.blocks.values():
                for s in b.succs:
                    if fn.blocks[s].rpo <= b.rpo:
                        h.add(s)
            self.live_cache[k] = h
        return self.live_cache[k]

    def loop_ends(self, fn):
        """header -> position after the last block of its loop"""
        k = ('loopends', fn.name)
        if k not in self.live_cache:
            out = {}
            for h in self.loop_headers(fn):
                body = {h}
                work = [p for p in fn.blocks[h].preds if fn.blocks[p].rpo >= fn.blocks[h].rpo]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work += fn.blocks[x].preds
                out[h] = max(fn.blocks[x].rpo for x in body if x in fn.blocks) + 0.5
            self.live_cache[k] = out
        return self.live_cache[k]

    def flag_key(self, fn, e):
        if not self.flag_partition:
            return None
        k = ('flags', fn.name)
        fl = self.live_cache.get(k)
        if fl is None:
            fl = set()
            phis = {i.res: i for i in fn.instrs() if i.op == 'phi' and i.ty.k == 'int'}
            fl = set(phis)
            ch = True
            while ch:
                ch = False
                for r in list(fl):
                    for v, _ in phis[r].x:
                        if not (v.k in ('int', 'undef') or v.k == 'local' and v.v in fl or phis[r].ty.a == 1):
                            fl.discard(r)
                            ch = True
                            break
            if self.branch_flags_only:
                used = set()
                defs = {i.res: i for i in fn.instrs() if i.res}
                work = [i.ops[0] for i in fn.instrs() if i.op in ('br', 'switch') and i.ops]
                while work:
                    v = work.pop()
                    if v.k == 'local' and v.v not in used:
                        used.add(v.v)
                        d = defs.get(v.v)
                        if d is not None and d.op == 'phi':
                            work += [x for x, _ in d.x]
                        elif d is not None and d.op in ('icmp', 'and', 'or', 'xor', 'zext', 'sext', 'trunc', 'freeze', 'select'):
                            work += d.ops
                fl &= used
            self.live_cache[k] = fl
        out = []
        for r in sorted(fl):
            v = e.get(r)
            if isinstance(v, Lin) and v.is_const():
                out.append((r, v.c))
        return tuple(out)

    # ------------------------------------------------------------ functions
    def find_fn(self, name):
        for m in self.mods:
            f = m.fns.get(name)
            if f is None and name in m.aliases:
                f = m.fns.get(m.aliases[name])
            if f is not None:
                return f
        return None

    def run(self, fn, args, st):
        """abstract execution of fn from st: [(state, retval, kind)]"""
        if self.depth > self.max_depth:
            raise AnalysisError('call depth exceeded in ' + fn.name)
        self.depth += 1
        self.stack.append(fn)
        self.locals.append([])
        try:
            res = self._run(fn, args, st)
            if self.depth > 1:
                # the frame is gone
                for s, _, _ in res:
                    for r in self.locals[-1]:
                        s.mem.pop(r, None)
            return res
        finally:
            self.depth -= 1
            self.stack.pop()
            self.locals.pop()

    def _run(self, fn, args, st):
        self.visited_fns.add(fn.name)
        env = {}
        for (t, nm, info), a in zip(fn.args, args):
            env[nm] = a
        live = self.liveness(fn)
        headers = self.loop_headers(fn)
        blocks = fn.blocks
        results = []
        heap = []
        tick = 0
        inv = {}
        joinst = {}

        ends = self.loop_ends(fn) if headers else {}

        def push(bn, pred, s, e, cnt):
            nonlocal tick
            tick += 1
            pr = blocks[bn].rpo
            if bn in headers and pred is not None and not isinstance(pred, tuple) and blocks[pred].rpo >= pr:
                pr = ends[bn]        # back edge: let the loop body finish first
            heapq.heappush(heap, (pr, tick, bn, pred, s, e, cnt))

        def enter(b, bn, pred, s, e, cnt):
            s, e = self.do_phis(b, pred, s, e)
            e = {k: v for k, v in e.items() if k in live[bn] or k in b_phi(b)}
            if cnt:
                cnt = {h: c for h, c in cnt.items() if h in b.loops}
            return s, e, cnt

        push(fn.entry.name, None, st, env, {})
        while heap:
            rpo, _, bn, pred, s, e, cnt = heapq.heappop(heap)
            b = blocks[bn]
            s, e, cnt = enter(b, bn, pred, s, e, cnt)
            if bn in headers:
                batch = [(s, e, cnt)]
                while heap and heap[0][0] == rpo and heap[0][2] == bn:
                    x = heapq.heappop(heap)
                    batch.append(enter(b, bn, x[3], x[4], x[5], x[6]))
                todo, groups = [], {}
                for s, e, cnt in batch:
                    c = cnt.get(bn, 0) + 1
                    if self.cap_counts:
                        c = min(c, self.unroll + 1)
                    cnt = dict(cnt)
                    cnt[bn] = c
                    # leaving and re-entering inner loops resets their counters
                    for h in list(cnt):
                        if h != bn and blocks[h].rpo > blocks[bn].rpo:
                            del cnt[h]
                    if c <= self.unroll:
                        todo.append((s, e, cnt))
                    else:
                        gk = (bn, self.ghost_key(s), self.flag_key(fn, e), self.part_env and self.part_env(fn, s, e), tuple(sorted((k, v) for k, v in cnt.items() if k != bn)))
                        groups.setdefault(gk, []).append((s, e, cnt))
                for gk, items in groups.items():
                    o = inv.get(gk)
                    moved = False
                    if o is None:
                        s, e, cnt = items.pop(0)
                        o = inv[gk] = [s, e, 0, {'syms': {}, 'cons': None}]
                        moved = True
                    else:
                        o[2] += 1
                    for s, e, cnt in items:
                        r = self.join(o[0], o[1], s, e, widen=o[2] > self.widen_after, rec=o[3])
                        if r is not None:
                            o[0], o[1] = r
                            moved = True
                    if o[2] > 40:
                        raise AnalysisError('no fixpoint at %s in %s' % (bn, fn.pretty))
                    if moved:
                        todo.append((o[0].copy(), dict(o[1]), cnt))
                for s, e, cnt in todo:
                    self.exec_block(fn, b, s, e, cnt, push, results)
                if len(heap) > self.max_states:
                    raise AnalysisError('too many abstract states in %s' % fn.pretty)
                continue
            if self.merge_key is not None and len(b.preds) > 1:
                # merge everything waiting for this block with the same key
                gk = (self.merge_key(self, s), self.flag_key(fn, e), self.part_env and self.part_env(fn, s, e))
                same = []
                rest = []
                while heap and heap[0][0] == rpo and heap[0][2] == bn:
                    x = heapq.heappop(heap)
                    s2, e2 = self.do_phis(b, x[3], x[4], x[5])
                    e2 = {k: v for k, v in e2.items() if k in live[bn] or k in b_phi(b)}
                    c2 = {h: c for h, c in x[6].items() if h in b.loops}
                    if c2 == cnt and (self.merge_key(self, s2), self.flag_key(fn, e2), self.part_env and self.part_env(fn, s2, e2)) == gk:
                        r = self.join(s, e, s2, e2)
                        if r is not None:
                            s, e = r
                    else:
                        rest.append((s2, e2, c2))
                for (s2, e2, c2) in rest:
                    tick += 1
                    heapq.heappush(heap, (rpo, tick, bn, ('done', pred), s2, e2, c2))
            self.exec_block(fn, b, s, e, cnt, push, results)
            if len(heap) > self.max_states:
                raise AnalysisError('too many abstract states in %s' % fn.pretty)
        if self.ret_merge and len(results) > self.ret_min:
            results = self.merge_results(results)
        return results

    def merge_results(self, results):
        out = []
        for s, v, k in results:
            for idx, (s2, v2, k2) in enumerate(out):
                if k == k2 and self.ret_merge(self, s) == self.ret_merge(self, s2):
                    r = self.join(s2, {'%r': v2}, s, {'%r': v})
                    if r is not None:
                        out[idx] = (r[0], r[1]['%r'], k)
                    break
            else:
                out.append((s, v, k))
        return out

    def ghost_key(self, s):
        if self.loop_key is not None:
            return self.loop_key(self, s)
        if self.merge_key is not None:
            return self.merge_key(self, s)
        return tuple(sorted((k, repr(v)) for k, v in s.ghost.items()))

    def do_phis(self, b, pred, s, e):
        if isinstance(pred, tuple):
            return s, e
        upd = {}
        for i in b.ins:
            if i.op != 'phi':
                break
            for v, l in i.x:
                if l == pred:
                    upd[i.res] = self.val(s, e, v)
                    break
            else:
                raise AnalysisError('phi without edge %s' % pred)
        if upd:
            e = dict(e)
            e.update(upd)
        return s, e

    def exec_block(self, fn, b, s, e, cnt, push, results):
        work = [(s, e, 0)]
        ins = b.ins
        n = len(ins)
        while work:
            s, e, i = work.pop()
            while i < n:
                I = ins[i]
                self.steps += 1
                if self.steps > self.max_steps:
                    raise AnalysisError('step budget exceeded in %s' % fn.pretty)
                op = I.op
                if op == 'phi':
                    i += 1
                    continue
                if op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'invoke'):
                    self.terminator(fn, b, I, s, e, cnt, push, results)
                    break
                outs = self.step(fn, I, s, e)
                if self.unwound:
                    results.extend((x, None, 'unwind') for x in self.unwound)
                    self.unwound = []
                if not outs:
                    break
                i += 1
                if len(outs) == 1:
                    s, v = outs[0]
                    if I.res is not None:
                        e[I.res] = v
                    continue
                for s2, v in outs[1:]:
                    e2 = dict(e)
                    if I.res is not None:
                        e2[I.res] = v
                    work.append((s2, e2, i))
                s, v = outs[0]
                e = dict(e)
                if I.res is not None:
                    e[I.res] = v

    def note(self, s, I, txt):
        w = self.where(I)
        s.trace = ('%s %s' % (w, txt), s.trace)

    def terminator(self, fn, b, I, s, e, cnt, push, results):
        op = I.op
        if op == 'br':
            if len(I.x) == 1:
                push(I.x[0], b.name, s, e, cnt)
                return
            v = self.coerce(s, self.val(s, e, I.ops[0]), ir.ity(1))
            outs = self.split_bool(s, v)
            many = len(outs) > 1
            for s2, bit in outs:
                if many:
                    self.note(s2, I, 'taken' if bit else 'not taken')
                push(I.x[0] if bit else I.x[1], b.name, s2, dict(e), cnt)
            return
        if op == 'switch':
            v = self.coerce(s, self.val(s, e, I.ops[0]), I.ops[0].ty)
            d, cs = I.x
            w = I.ops[0].ty.a
            if not isinstance(v, Lin):
                for _, l in [(None, d)] + cs:
                    push(l, b.name, s.copy(), dict(e), cnt)
                return
            for s1, u in self.as_u(s, v, w):
                rem = s1
                for c, l in cs:
                    c &= (1 << w) - 1
                    t = rem.copy()
                    if t.p.assume_eq(u - c):
                        self.note(t, I, 'case %d' % c)
                        push(l, b.name, t, dict(e), cnt)
                    r = self.assume(rem, Cond('ne', u - c))
                    if not r:
                        rem = None
                        break
                    if len(r) == 1:
                        rem = r[0]
                    else:
                        # keep hole: fall back to not constraining
                        rem = rem if rem in r else r[-1]
                        rem = self._ne_weak(r)
                if rem is not None:
                    for r in (rem if isinstance(rem, list) else [rem]):
                        push(d, b.name, r, dict(e), cnt)
            return
        if op == 'ret':
            v = self.val(s, e, I.ops[0]) if I.ops else None
            results.append((s, v, 'ret'))
            return
        if op == 'resume':
            results.append((s, None, 'unwind'))
            return
        if op == 'unreachable':
            return
        if op == 'invoke':
            for s2, v, k in self.do_call(fn, I, s, e):
                e2 = dict(e)
                if k == 'ret':
                    if I.res is not None:
                        e2[I.res] = v
                    push(I.x['normal'], b.name, s2, e2, cnt)
                else:
                    push(I.x['unwind'], b.name, s2, e2, cnt)

    def _ne_weak(self, rs):
        """several disjuncts of a != case: keep the first as representative list"""
        base = rs[0]
        if len(rs) == 1:
            return base
        r = self.join(rs[0], {}, rs[1], {})
        return r[0] if r is not None else rs[0]

    # ------------------------------------------------------------ instructions
    def step(self, fn, I, s, e):
        op = I.op
        m = fn.mod
        if op == 'alloca':
            sz = m.sizeof(I.x)
            size = K(sz)
            if I.ops:
                c = self.val(s, e, I.ops[0])
                c = s.p.norm(c) if isinstance(c, Lin) else None
                size = c.scale(sz) if c is not None else None
            r = Region('%s:%s' % (short(fn), I.res), size if size is None or not size.is_const() else size.c, 'stack', 'undef')
            r.ty = I.x
            self.locals[-1].append(r)
            return [(s, Ptr(r))]
        if op == 'load':
            p = self.val(s, e, I.ops[0])
            if self.on_load is not None:
                r = self.on_load(self, s, I, p, I.ty)
                if r is not None:
                    return r
            if not isinstance(p, Ptr):
                return [(s, self.top(s, I.ty, 'ld', True))]
            return [(s, self.load(s, p, I.ty, m))]
        if op == 'store':
            v = self.val(s, e, I.ops[0])
            p = self.val(s, e, I.ops[1])
            out = []
            for s2, v2 in self.to_int(s, v):
                size = m.sizeof(I.ops[0].ty)
                if self.on_store is not None:
                    r = self.on_store(self, s2, I, p, v2, size)
                    if r is not None:
                        out += [(x, None) for x in r]
                        continue
                if isinstance(p, Ptr):
                    self.store_typed(s2, p, v2, I.ops[0].ty, m, I)
                out.append((s2, None))
            return out
        if op == 'getelementptr':
            base = self.val(s, e, I.ops[0])
            return self.gep(s, base, I.x, [self.val(s, e, v) for v in I.ops[1:]],
                            [v.ty for v in I.ops[1:]], m)
        if op in ('icmp',):
            return self.icmp(s, I, self.val(s, e, I.ops[0]), self.val(s, e, I.ops[1]))
        if op == 'call':
            outs = self.do_call(fn, I, s, e)
            if self.keep_unwind:
                self.unwound += [s2 for s2, v, k in outs if k == 'unwind']
            return [(s2, v) for s2, v, k in outs if k == 'ret']
        if op in ir.CAST:
            return self.cast(s, I, self.val(s, e, I.ops[0]))
        if op in ir.BIN:
            return self.binop(s, I, self.val(s, e, I.ops[0]), self.val(s, e, I.ops[1]))
        if op == 'select':
            c = self.coerce(s, self.val(s, e, I.ops[0]), ir.ity(1))
            a, b = self.val(s, e, I.ops[1]), self.val(s, e, I.ops[2])
            return [(s2, a if bit else b) for s2, bit in self.split_bool(s, c)]
        if op == 'extractvalue':
            v = self.val(s, e, I.ops[0])
            ty = m.resolve(I.ops[0].ty)
            for k in I.x:
                ty = m.resolve(ty.a[k] if ty.k == 'struct' else ty.b)
                if isinstance(v, Agg):
                    v = v.v[k]
                else:
                    v = self.top(s, ty, 'xv')
            return [(s, v)]
        if op == 'insertvalue':
            v = self.val(s, e, I.ops[0])
            x = self.val(s, e, I.ops[1])

            def ins_(v, ty, path):
                ty = m.resolve(ty)
                n = len(ty.a) if ty.k == 'struct' else ty.a
                lst = list(v.v) if isinstance(v, Agg) else [UNDEF] * n
                k = path[0]
                if len(path) == 1:
                    lst[k] = x
                else:
                    lst[k] = ins_(lst[k], ty.a[k] if ty.k == 'struct' else ty.b, path[1:])
                return Agg(lst)
            return [(s, ins_(v, I.ops[0].ty, I.x))]
        if op == 'freeze':
            return [(s, self.coerce(s, self.val(s, e, I.ops[0]), I.ty))]
        if op == 'fneg' or op == 'fcmp':
            if op == 'fcmp':
                return [(s, self.top_int(s, 1, 'fcmp'))]
            return [(s, Opq('fneg'))]
        if op == 'landingpad':
            return [(s, Agg([Opq('exc'), self.top_int(s, 32, 'sel')]))]
        if op == 'fence':
            return self.on_fence(s, I)
        if op == 'atomicrmw':
            p = self.val(s, e, I.ops[0])
            x = self.val(s, e, I.ops[1])
            old = self.load(s, p, I.ty, m) if isinstance(p, Ptr) else self.top(s, I.ty, taint=True)
            if self.on_load is not None:
                self.on_load(self, s, I, p, I.ty)
            kind = I.x[0]
            new = None
            if isinstance(old, Lin) and isinstance(x, Lin):
                if kind == 'add':
                    new = old + x
                elif kind == 'sub':
                    new = old - x
                elif kind == 'xchg':
                    new = x
                elif kind == 'and':
                    new = self.bit_and(s, old, x, I.ty.a)
            elif kind == 'xchg':
                new = x
            outs = [(s, new)]
            if isinstance(new, Lin) and I.ty.k == 'int':
                outs = self.wrap(s, new, I.ty.a)
            res = []
            for s2, nv in outs:
                if nv is None:
                    nv = self.top(s2, I.ty, taint=True)
                if self.on_store is not None:
                    r = self.on_store(self, s2, I, p, nv, m.sizeof(I.ty))
                    if r is not None:
                        res += [(x2, old) for x2 in r]
                        continue
                if isinstance(p, Ptr):
                    self.store(s2, p, nv, m.sizeof(I.ty), I)
                res.append((s2, old))
            return res
        if op == 'cmpxchg':
            p = self.val(s, e, I.ops[0])
            ty = I.ops[1].ty
            old = self.load(s, p, ty, m) if isinstance(p, Ptr) else self.top(s, ty, taint=True)
            new = self.val(s, e, I.ops[2])
            out = []
            b = s.copy()
            self.store(s, p, new, m.sizeof(ty), I)
            out.append((s, Agg([old, K(1)])))
            out.append((b, Agg([old, K(0)])))
            return out
        if op in ('extractelement', 'insertelement', 'shufflevector', 'va_arg'):
            return [(s, self.top(s, I.ty, op, True))]
        raise AnalysisError('instruction %s' % I.text)

    def on_fence(self, s, I):
        return [(s, None)]

    def store_typed(self, s, p, v, ty, m, I=None):
        rty = m.resolve(ty)
        if isinstance(v, Agg) and rty.k in ('struct', 'arr'):
            if rty.k == 'struct':
                for t, o, x in zip(rty.a, m.layout(rty)[2], v.v):
                    self.store_typed(s, Ptr(p.r, p.o + o), x, t, m, I)
            else:
                es = m.sizeof(rty.b)
                for k, x in enumerate(v.v):
                    self.store_typed(s, Ptr(p.r, p.o + k * es), x, rty.b, m, I)
            return
        self.store(s, p, v, m.sizeof(rty), I)

    def icmp(self, s, I, a, b):
        pr = I.x
        ty = I.ops[0].ty
        if a is UNDEF or b is UNDEF or a is ANY or b is ANY:
            return [(s, self.top_int(s, 1, 'undefcmp'))]
        if isinstance(a, Cond) or isinstance(b, Cond):
            out = []
            for s1, x in self.to_int(s, a):
                for s2, y in self.to_int(s1, b):
                    out += self.icmp(s2, I, x, y)
            return out
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r is b.r:
                return [(s, self._cmp(s, pr.replace('u', 's') if pr[0] == 'u' else pr, a.o, b.o))]
            if pr in ('eq', 'ne'):
                eq = None
                if a.r is NULLR and b.r.nonnull or b.r is NULLR and a.r.nonnull:
                    eq = 0
                elif a.r.kind in ('stack', 'heap', 'global', 'fn') and b.r.kind in ('stack', 'heap', 'global', 'fn'):
                    eq = 0
                if eq is not None:
                    return [(s, K(eq if pr == 'eq' else 1 - eq))]
            if a.r is NULLR or b.r is NULLR:
                o = a if b.r is NULLR else b
                if pr in ('eq', 'ne'):
                    return self.null_split(s, o, pr)
            if pr in ('ugt', 'uge', 'ult', 'ule'):
                return [(s, self.top_int(s, 1, 'ptrcmp', True))]
            return [(s, self._opq_cmp(s, pr, a, b))]
        if isinstance(a, Lin) and isinstance(b, Lin):
            w = ty.a if ty.k == 'int' else 64
            if pr in ('eq', 'ne'):
                out = []
                d = s.p.norm(a - b)
                lo, hi = s.p.bounds(d)
                M = 1 << w
                if lo > -M and hi < M:
                    # representations may differ by a multiple of 2^w only if signs differ
                    la, ha = s.p.bounds(a)
                    lb, hb = s.p.bounds(b)
                    if (la >= 0) == (lb >= 0) or (ha < 0 and hb < 0) or hi - lo < M and d.is_const() \
                            or (la >= 0 and hb < M // 2 and lb >= -M // 2 and ha < M // 2):
                        if (la >= 0 and lb >= 0) or (ha < M // 2 and hb < M // 2):
                            return [(s, self.decide(s, Cond(pr, d)))]
                for s1, x in self.as_u(s, a, w):
                    for s2, y in self.as_u(s1, b, w):
                        out.append((s2, self.decide(s2, Cond(pr, x - y))))
                return out
            sg = pr[0] == 's'
            out = []
            f = self.as_s if sg else self.as_u
            for s1, x in f(s, a, w):
                for s2, y in f(s1, b, w):
                    out.append((s2, self._cmp(s2, pr, x, y)))
            return out
        return [(s, self._opq_cmp(s, pr, a, b))]

    def null_split(self, s, p, pr):
        """comparison of a maybe-null pointer with null: remembered per region"""
        key = ('nn', id(p.r))
        g = s.ghost.get('nn', {})
        if id(p.r) in g:
            eq = g[id(p.r)]
            return [(s, K(eq if pr == 'eq' else 1 - eq))]
        a, b = s, s.copy()
        a.ghost['nn'] = dict(g); a.ghost['nn'][id(p.r)] = 1
        b.ghost['nn'] = dict(g); b.ghost['nn'][id(p.r)] = 0
        return [(a, K(1 if pr == 'eq' else 0)), (b, K(0 if pr == 'eq' else 1))]

    def _opq_cmp(self, s, pr, a, b):
        def key(x):
            return x if isinstance(x, (Lin, Ptr, Agg)) else getattr(x, 'i', id(x))
        k = ('cmp', pr, key(a), key(b))
        v = self.opmemo.get(k)
        if v is None:
            v = self.opmemo[k] = fresh('cmp(%r %s %r)' % (a, pr, b))
        s.p.declare(v, 0, 1)
        return s.p.norm(var(v))

    def _cmp(self, s, pr, a, b):
        o = pr if len(pr) == 2 else pr[1:]
        if o == 'gt':
            c = Cond('ge', a - b - 1)
        elif o == 'ge':
            c = Cond('ge', a - b)
        elif o == 'lt':
            c = Cond('ge', b - a - 1)
        elif o == 'le':
            c = Cond('ge', b - a)
        else:
            c = Cond(o, a - b)
        return self.decide(s, c)

    def cast(self, s, I, v):
        op = I.op
        src, dst = I.ops[0].ty, I.ty
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            if op == 'inttoptr' and isinstance(v, Lin):
                n = s.p.norm(v)
                if n.is_const() and n.c == 0:
                    return [(s, NULL)]
                return [(s, v)]
            return [(s, v)]
        if v is UNDEF:
            return [(s, self.top(s, dst, 'undef'))]
        if op in ('zext', 'sext', 'trunc') and dst.k == 'int':
            if v is ANY:
                return [(s, ANY if dst.a > 1 else self.top_int(s, 1, 'any'))]
            if isinstance(v, Cond):
                if op == 'zext':
                    return self.to_int(s, v)
                if op == 'trunc':
                    return [(s, v)]
                return [(s2, K(-b)) for s2, b in self.split_bool(s, v)]
            if not isinstance(v, Lin):
                if isinstance(v, Ptr) and op != 'trunc':
                    return [(s, v)]
                return [(s, self.top_int(s, dst.a, op, True))]
            if op == 'zext':
                return self.as_u(s, v, src.a)
            if op == 'sext':
                return self.as_s(s, v, src.a)
            lo, hi = s.p.bounds(v)
            M = 1 << dst.a
            if dst.a == 1:
                if lo >= 0 and hi <= 1:
                    return [(s, v)]
                return [(s, self.mod(s, v, 1))]
            if lo >= -(M >> 1) and hi < M:
                return [(s, v)]
            return [(s, self.mod(s, v, dst.a))]
        if op in ('sitofp', 'uitofp', 'fpext', 'fptrunc'):
            k = v if isinstance(v, Lin) else getattr(v, 'i', 0)
            key = (op, k, src.a if src.k in ('int', 'float') else 0, dst.a)
            r = self.opmemo.get(key)
            if r is None:
                r = self.opmemo[key] = Opq(op)
            return [(s, r)]
        if op in ('fptosi', 'fptoui'):
            return [(s, self.top_int(s, dst.a, op))]
        return [(s, self.top(s, dst, op, True))]

    def binop(self, s, I, a, b):
        op, ty = I.op, I.ty
        if op[0] == 'f':
            ka = a if isinstance(a, Lin) else getattr(a, 'i', 0)
            kb = b if isinstance(b, Lin) else getattr(b, 'i', 0)
            key = (op, ka, kb)
            r = self.opmemo.get(key)
            if r is None:
                r = self.opmemo[key] = Opq(op)
            return [(s, r)]
        if ty.k != 'int':
            return [(s, self.top(s, ty, op, True))]
        w = ty.a
        if a is ANY or b is ANY:
            return [(s, ANY if w > 1 else self.top_int(s, 1, 'any'))]
        if a is UNDEF:
            a = self.top(s, ty, 'undef')
        if b is UNDEF:
            b = self.top(s, ty, 'undef')
        if isinstance(a, Cond) or isinstance(b, Cond):
            if op == 'xor' and isinstance(a, Cond) and isinstance(b, Lin) and s.p.norm(b).is_const():
                return [(s, a.neg() if s.p.norm(b).c & 1 else a)]
            out = []
            for s1, x in self.to_int(s, a):
                for s2, y in self.to_int(s1, b):
                    out += self.binop(s2, I, x, y)
            return out
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r is b.r:
                    return [(s, s.p.norm(a.o - b.o))]
                return [(s, self.top_int(s, w, 'ptrdiff', True))]
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Lin):
                return [(s, Ptr(a.r, a.o - b))]
            if op == 'add':
                p, x = (a, b) if isinstance(a, Ptr) else (b, a)
                if isinstance(x, Lin):
                    return [(s, Ptr(p.r, p.o + x))]
            return [(s, self.top_int(s, w, 'ptrop', True))]
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            return [(s, self.top_int(s, w, op, True))]
        a, b = s.p.norm(a), s.p.norm(b)
        if op == 'add':
            return self.wrap(s, a + b, w)
        if op == 'sub':
            return self.wrap(s, a - b, w)
        if op == 'mul':
            if b.is_const():
                return self.wrap(s, a.scale(b.c), w)
            if a.is_const():
                return self.wrap(s, b.scale(a.c), w)
            r = self.top_int(s, w, '%r*%r' % (a, b))
            return [(s, r)]
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if b.is_const() and b.c > 0:
                out = []
                f = self.as_u if op[0] == 'u' else self.as_s
                if 'exact' in I.flags:
                    q, r = self.divmod_c(s, a, b.c)
                    s.p.assume_eq(r)
                    return [(s, s.p.norm(q))]
                for s1, x in f(s, a, w):
                    sub = [(s1, x)]
                    if op[0] == 's':
                        lo, hi = s1.p.bounds(x)
                        if lo < 0:
                            sub = []
                            p = s1.copy()
                            if p.p.assume(x):
                                sub.append((p, x))
                            n = s1.copy()
                            if n.p.assume(-x - 1):
                                q, r = self.divmod_c(n, -x, b.c)
                                out.append((n, -q if op == 'sdiv' else -r))
                    for s2, y in sub:
                        q, r = self.divmod_c(s2, y, b.c)
                        out.append((s2, q if op[1:] == 'div' else r))
                return out
            if op == 'urem' or op == 'srem':
                r = self.top_int(s, w, 'rem')
                out = []
                for s1, y in self.as_u(s, b, w):
                    # 0 <= r < b  (b = 0 is undefined behaviour)
                    if s1.p.assume(y - 1) and s1.p.assume(y - r - 1):
                        for s2, x in self.as_u(s1, a, w):
                            if s2.p.assume(x - r):
                                # x < y  =>  r = x
                                t = s2.copy()
                                if t.p.assume(y - x - 1) and t.p.assume_eq(r - x):
                                    out.append((t, t.p.norm(r)))
                                if s2.p.assume(x - y):
                                    if s2.p.entails(y.scale(2) - x - 1):
                                        s2.p.assume_eq(r - (x - y))     # y <= x < 2y
                                    out.append((s2, s2.p.norm(r)))
                return out
            return [(s, self.top_int(s, w, op))]
        if op == 'shl':
            if b.is_const():
                x = a.scale(1 << b.c)
                lo, hi = s.p.bounds(x)
                if lo >= -(1 << (w - 1)) and hi < (1 << w):
                    return [(s, x)]
                return [(s, self.mod(s, x, w))]
            if a.is_const():
                lo, hi = s.p.bounds(b)
                if lo >= 0 and hi < 64 and hi - lo < 64:
                    out = []
                    for k in range(lo, hi + 1):
                        t = s.copy()
                        if t.p.assume_eq(b - k):
                            out.append((t, K((a.c << k) & ((1 << w) - 1))))
                    return out
            return [(s, self.top_int(s, w, 'shl'))]
        if op == 'lshr':
            if b.is_const():
                return [(s1, self.divmod_c(s1, x, 1 << b.c)[0]) for s1, x in self.as_u(s, a, w)]
            return [(s, self.top_int(s, w, 'lshr'))]
        if op == 'ashr':
            if b.is_const():
                return [(s1, self.divmod_c(s1, x, 1 << b.c)[0]) for s1, x in self.as_s(s, a, w)]
            return [(s, self.top_int(s, w, 'ashr'))]
        if op in ('and', 'or', 'xor'):
            if op == 'xor' and w == 1 and b.is_const() and b.c & 1:
                return [(s, K(1) - self.mod(s, a, 1))]
            r = self.bit_and(s, a, b, w)
            if r is not None:
                if op == 'and':
                    return [(s, r)]
                if op == 'or':
                    x = a + b - r
                else:
                    x = a + b - r.scale(2)
                return [(s, self.mod(s, x, w))] if not self._in(s, x, w) else [(s, x)]
            key = (op, a, b, w)
            v = self.opmemo.get(key)
            if v is None:
                v = self.opmemo[key] = fresh('%s(%r,%r)' % (op, a, b))
            s.p.declare(v, 0, (1 << w) - 1)
            s.taint = s.taint | {v}
            if w == 1:
                pass
            return [(s, s.p.norm(var(v)))]
        raise AnalysisError('binop ' + op)

    def _in(self, s, x, w):
        lo, hi = s.p.bounds(x)
        return lo >= -(1 << (w - 1)) and hi < (1 << w)

    # ------------------------------------------------------------ calls
    def do_call(self, fn, I, s, e):
        """[(state, value, 'ret'|'unwind')]"""
        self.call_sites += 1
        cal = I.x['callee']
        args = [self.val(s, e, v) for v in I.ops]
        # byval arguments are copied
        for k, info in I.x['byval'].items():
            if 'byval' in info and isinstance(args[k], Ptr):
                sz = fn.mod.sizeof(info['byval'])
                r = Region('byval:%s' % I.res, sz, 'stack', 'undef')
                r.ty = info['byval']
                self.memcpy(s, Ptr(r), args[k], K(sz))
                args[k] = Ptr(r)
        if cal.k == 'asm':
            r = self.do_asm(s, I, cal.v, args)
            return [(x, v, 'ret') for x, v in r]
        name = None
        if cal.k == 'global':
            name = cal.v[1:]
            if name.startswith('llvm.lifetime.end'):
                if self.gc_syms and isinstance(args[1], Ptr) and args[1].r.kind == 'stack':
                    s.mem.pop(args[1].r, None)
                return [(s, None, 'ret')]
        else:
            f = self.val(s, e, cal)
            if isinstance(f, Ptr) and f.r.kind == 'fn' and s.p.norm(f.o) == K(0):
                name = f.r.name[1:]
            else:
                if self.on_call is not None:
                    r = self.on_call(self, s, I, None, args, f)
                    if r is not None:
                        return r
                return [(s, self.top(s, I.ty, 'indirect', True), 'ret')]
        if self.on_call is not None:
            r = self.on_call(self, s, I, name, args, None)
            if r is not None:
                return r
        self.envs.append(e)
        try:
            return self.call_named(fn, I, s, name, args)
        finally:
            self.envs.pop()

    def call_named(self, fn, I, s, name, args):
        mdl = self.models.get(name)
        if mdl is None:
            for pre, f in self.prefix_models:
                if name.startswith(pre):
                    mdl = f
                    break
        if mdl is not None:
            r = mdl(self, s, I, args)
            if r is not None:
                return [x if len(x) == 3 else (x[0], x[1], 'ret') for x in r]
        callee = self.find_fn(name)
        if callee is not None and not (self.no_descend and self.no_descend(callee)):
            return self.run(callee, args, s)
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        # unknown external: result unknown, objects passed by pointer are havocked
        for a in args:
            if isinstance(a, Ptr) and a.r is not NULLR and a.r.kind not in ('fn',) and \
                    not (isinstance(a.r.init, tuple)):
                self.havoc(s, a.r, None, None, I)
        return [(s, self.top(s, I.ty, name), 'ret')]

    def do_asm(self, s, I, code, args):
        return [(s, self.top(s, I.ty, 'asm'))]

    # ------------------------------------------------------------ join / widening
    def join(self, s1, e1, s2, e2, widen=False, rec=None):
        """least (up to the domain) state above both; None if s2 is below s1.
        rec: per-loop-header memory {'syms': location -> join symbol, 'cons': invariant}"""
        if rec is None:
            rec = {'syms': {}, 'cons': None}
        syms = rec['syms']
        jset = set(syms.values())
        defs = {}          # join symbol -> (value in s1, value in s2)
        memo = {}
        changed = [False]
        boolsyms = rec.setdefault('bools', set())

        def ment(e):
            return any(x in jset for x in e.syms())

        def jv(v, w, loc):
            if v is ANY or w is ANY:
                if v is not ANY:
                    changed[0] = True
                return ANY
            if loc in syms and isinstance(v, (Lin, Cond)) and isinstance(w, (Lin, Cond)):
                f = syms[loc]
                if f in boolsyms:
                    return var(f)
                if isinstance(v, Lin) and isinstance(w, Lin):
                    defs[f] = (s1.p.norm(v), s2.p.norm(w))
                    return var(f)
            if v is w and not (isinstance(v, (Lin, Ptr, Agg, Cond)) and jset):
                return v
            if isinstance(v, Lin) and isinstance(w, Lin):
                a, b = s1.p.norm(v), s2.p.norm(w)
                if a == b and not ment(a):
                    return a
                if v == w and not ment(v):
                    return v
                k = (a, b)
                if k in memo:
                    return var(memo[k])
                f = fresh('j')
                memo[k] = f
                syms[loc] = f
                defs[f] = (a, b)
                changed[0] = True
                return var(f)
            if isinstance(v, Ptr) and isinstance(w, Ptr):
                if v.r is w.r:
                    a, b = s1.p.norm(v.o), s2.p.norm(w.o)
                    g = 0
                    for _, k in a.t + b.t:
                        g = gcd(g, k)
                    g = gcd(g, a.c - b.c)
                    if g > 1 and a != b:
                        # join the element index rather than the byte offset
                        c = a.c % g
                        a = Lin((a.c - c) // g, tuple((x, k // g) for x, k in a.t))
                        b = Lin((b.c - c) // g, tuple((x, k // g) for x, k in b.t))
                        return Ptr(v.r, jv(a, b, (loc, 'o')).scale(g) + c)
                    return Ptr(v.r, jv(v.o, w.o, (loc, 'o')))
                return jtop('p', v, w)
            if isinstance(v, Agg) and isinstance(w, Agg) and len(v.v) == len(w.v):
                return Agg([jv(a, b, (loc, i)) for i, (a, b) in enumerate(zip(v.v, w.v))])
            if v is UNDEF:
                changed[0] = changed[0] or w is not UNDEF
                return w
            if w is UNDEF:
                return v
            if isinstance(v, (Cond, Lin)) and isinstance(w, (Cond, Lin)):
                if v == w and not ment(v.e if isinstance(v, Cond) else v):
                    return v
                f = fresh('jb')
                syms[loc] = f
                changed[0] = True
                boolsyms.add(f)
                return var(f)
            if v == w:
                return v
            return jtop('x', v, w)

        def jtop(t, v, w):
            if v in tops:
                return v
            key = (t, repr(v), repr(w))
            if key in topmemo:
                return topmemo[key]
            changed[0] = True
            if t == 'p':
                r = Region('joined')
                r.nonnull = getattr(v, 'r', NULLR).nonnull and getattr(w, 'r', NULLR).nonnull
                x = Ptr(r)
            else:
                x = Opq('joined')
            tops.add(x)
            topmemo[key] = x
            return x
        if not hasattr(self, 'jtops'):
            self.jtops = set()
        tops = self.jtops
        topmemo = {}
        env = {}
        for k in e1:
            if k in e2:
                env[k] = jv(e1[k], e2[k], ('e', k))
        out = State()
        out.taint = s1.taint | s2.taint
        # ghost: must agree by key; unequal entries are dropped through merge hook
        out.ghost = self.join_ghost(s1, s2, jv)
        out.trace = s1.trace
        for r in sorted(set(s1.mem) | set(s2.mem), key=lambda r: r.n):
            a, b = s1.mem.get(r), s2.mem.get(r)
            if a is b and not jset:
                out.mem[r] = a
                continue
            out.mem[r] = self.join_mem(s1, s2, r, a, b, jv, jset)
        # numeric part: name the joined locations in both polyhedra
        p1, p2 = s1.p.copy(), s2.p.copy()
        if self.gc_syms:
            l1, l2 = self.live_syms(s1, e1), self.live_syms(s2, e2)
            for a, b in defs.values():
                l1.update(a.syms())
                l2.update(b.syms())
            p1.project(l1 | set(defs))
            p2.project(l2 | set(defs))
        ren1, ren2 = {}, {}
        for f, (a, b) in defs.items():
            if a != var(f) and f in p1.bnd | p1.sub:
                ren1[f] = fresh('j0')
            if b != var(f):
                ren2[f] = fresh('j0')
        for f, g in ren1.items():
            p1 = rename(p1, f, g)
        for f, g in ren2.items():
            p2 = rename(p2, f, g)
        for f, (a, b) in defs.items():
            if a != var(f):
                p1.define(f, subst_all(a, ren1))
            if b != var(f):
                p2.define(f, subst_all(b, ren2))
        q = Poly()
        for f in sorted(boolsyms):
            q.declare(f, 0, 1)
        if rec['cons'] is not None and not changed[0]:
            keep = [c for c in rec['cons'] if p2.entails(c)]
            if len(keep) == len(rec['cons']):
                return None
        elif not changed[0] and rec['cons'] is None:
            cons = list(p1.all_cons()) + [e for s, v in p1.sub.items() for e in (var(s) - v, v - var(s))]
            if all(p2.entails(c) for c in cons):
                return None
        if not (widen and rec['cons'] is not None):
            cand = candidates(p1, defs, p2) | candidates(p2, defs, p1)
            fs = sorted(defs)
            tight1, tight2 = p1.propagated(), p2.propagated()
            zone1, zone2 = Zone(p1), Zone(p2)
            for i, f in enumerate(fs):
                com = {x for x, k in p1.norm(var(f)).t + p2.norm(var(f)).t
                       if k == 1 and x != f and (x in p1.bnd or x in p1.sub) and (x in p2.bnd or x in p2.sub)}
                for x in sorted(com) + fs[i + 1:]:
                    d = var(f) - var(x)
                    (l1, h1), (l2, h2) = p1.bounds(d), p2.bounds(d)
                    for l in {l1, l2}:
                        if l != -INF:
                            cand.add(d - l)
                    for h in {h1, h2}:
                        if h != INF:
                            cand.add(-d + h)
                for sg in (1, -1):
                    z1, z2 = zone1.reach(f, sg), zone2.reach(f, sg)
                    lo = min(z1.get(None, -INF), z2.get(None, -INF))
                    for x in z1:
                        if x in z2 and x is not None and x != f and (x in defs or x in p1.sub or x in p1.bnd) \
                                and (x in defs or x in p2.sub or x in p2.bnd):
                            l = min(z1[x], z2[x])
                            if l > lo + min(zone1.lim(x, -sg), zone2.lim(x, -sg)):
                                cand.add((var(f) - var(x)).scale(sg) - l)
                (l1, h1), (l2, h2) = tight1.bounds(var(f)), tight2.bounds(var(f))
                if min(l1, l2) != -INF:
                    cand.add(Lin(-min(l1, l2), ((f, 1),)))
                if max(h1, h2) != INF:
                    cand.add(Lin(max(h1, h2), ((f, -1),)))
            if len(fs) <= 24:
                cand |= triples(p1, fs) | triples(p2, fs)
            elif len(fs) <= 90:
                for e in triples(p1, fs) | triples(p2, fs):
                    a, b = p1.norm(e), p2.norm(e)
                    if not a.t and a.c >= 0 and not b.t and b.c >= 0:
                        cand.add(e)
            if rec['cons']:
                cand |= set(rec['cons'])
            if self.join_templates is not None:
                cand |= {c for c in self.join_templates(out, env) if c.t}
            keep = [c for c in sorted(cand, key=lambda c: (len(c.t), c.t, c.c))
                    if p1.entails(c) and p2.entails(c)]
        else:
            cand = set(rec['cons'])
            if changed[0]:
                cand |= candidates(p1, defs, p2)
            if self.join_templates is not None:
                cand |= {c for c in self.join_templates(out, env) if c.t}
            keep = [c for c in sorted(cand, key=lambda c: (len(c.t), c.t, c.c))
                    if p1.entails(c) and p2.entails(c)]
        rec['cons'] = keep
        for c in keep:
            q.assume(c)
        out.p = q
        return out, env

    def live_syms(self, s, e):
        out = set()
        done = set()

        def chain(n):
            while n is not None and n.id not in done:
                done.add(n.id)
                add(n.off)
                add(n.size)
                add(n.v)
                n = n.prev

        def add(v):
            if isinstance(v, Lin):
                out.update(v.syms())
            elif isinstance(v, Ptr):
                add(v.o)
            elif isinstance(v, Cond):
                add(v.e)
            elif isinstance(v, Agg):
                for x in v.v:
                    add(x)
            elif isinstance(v, (tuple, list)):
                for x in v:
                    add(x)
            elif isinstance(v, W):
                chain(v)
            elif isinstance(v, dict):
                for k, x in v.items():
                    add(k)
                    add(x)
            elif isinstance(v, str):
                out.add(v)
        for v in e.values():
            add(v)
        for v in s.ghost.values():
            add(v)
        for n in s.mem.values():
            chain(n)
        for v in self.lazy.values():
            add(v)
        for f in self.envs:
            for v in f.values():
                add(v)
        return out

    def join_ghost(self, s1, s2, jv):
        g = {}
        for k in s1.ghost:
            if k in s2.ghost:
                if s1.ghost[k] == s2.ghost[k]:
                    g[k] = jv(s1.ghost[k], s2.ghost[k], ('g', k)) if isinstance(s1.ghost[k], Lin) \
                        else s1.ghost[k]
                elif k == 'nn':
                    g[k] = {x: y for x, y in s1.ghost[k].items() if s2.ghost[k].get(x) == y}
                else:
                    f = getattr(self, 'ghost_join', None)
                    if isinstance(s1.ghost[k], Lin) and isinstance(s2.ghost[k], Lin):
                        g[k] = jv(s1.ghost[k], s2.ghost[k], ('g', k))
                        continue
                    if f is None:
                        raise AnalysisError('ghost %s differs at join' % k)
                    g[k] = f(k, s1.ghost[k], s2.ghost[k])
        return g

    def join_mem(self, s1, s2, r, a, b, jv, jset=()):
        # common tail
        seen = {}
        n = a
        while n is not None:
            seen[n.id] = n
            n = n.prev
        tail = None
        n = b
        while n is not None:
            if n.id in seen:
                tail = n
                break
            n = n.prev
        cells, dyn = [], False
        keys = {}
        # a single cell at a symbolic offset both sides agree on
        only = set()
        if a is tail or b is tail:
            only.add(None)
        for st, head in ((s1, a), (s2, b)):
            n = head
            while n is not tail:
                if n.kind in ('val', 'copy') and n.off is not None and n.size is not None and n.size.is_const() \
                        and n.size.c in (1, 2, 4, 8):
                    only.add((st.p.norm(n.off), n.size.c))
                    if any(x in jset for x in n.off.syms()):
                        only.add(None)
                else:
                    only.add(None)
                n = n.prev
        if len(only) == 1 and None not in only:
            (off, sz), = only
            if off.t and not any(x in jset for x in off.syms()):
                v1 = self._load(s1, r, off, sz, ir.ity(8 * sz), a)
                v2 = self._load(s2, r, off, sz, ir.ity(8 * sz), b)
                return W(off, K(sz), 'val', jv(v1, v2, ('m', r.n, off, sz)), tail)
        for head in (a, b):
            n = head
            while n is not tail:
                if n.off is not None and n.off.is_const() and n.size is not None and n.size.is_const():
                    if n.kind == 'val':
                        keys[(n.off.c, n.size.c)] = True
                    elif n.kind in ('copy', 'fill', 'top') and n.size.c <= 64:
                        for k in range(0, n.size.c):
                            keys.setdefault((n.off.c + k, 1), True)
                    else:
                        dyn = True
                else:
                    dyn = True
                n = n.prev
        if jset:
            n = tail
            while n is not None:
                if n.kind == 'val' and n.off is not None and n.off.is_const() and mentions(n.v, jset):
                    keys[(n.off.c, n.size.c)] = True
                n = n.prev
        if not keys and not dyn and a is b:
            return a
        new = tail
        if dyn:
            n = tail
            while n is not None:
                if n.off is not None and n.off.is_const() and n.size is not None and n.size.is_const() \
                        and n.kind == 'val':
                    keys[(n.off.c, n.size.c)] = True
                n = n.prev
            new = W(None, None, 'top', None, new)
        ks = sorted(keys)
        # skip sub-cells covered by a larger cell
        for (o, sz) in ks:
            v1, t1 = self.peek_cell(s1, r, o, sz, a)
            v2, t2 = self.peek_cell(s2, r, o, sz, b)
            if v1 is None or v2 is None:
                new = W(K(o), K(sz), 'top', None, new)
            else:
                new = W(K(o), K(sz), 'val', jv(v1, v2, ('m', r.n, o, sz)), new)
        return new

    def peek_cell(self, s, r, o, sz, head):
        n = head
        while n is not None:
            if n.kind == 'val' and n.off is not None and n.off.is_const() and n.off.c == o and \
                    n.size.is_const() and n.size.c == sz:
                return n.v, None
            if n.off is None:
                return None, None
            if n.off.is_const() and n.size is not None and n.size.is_const():
                if n.off.c + n.size.c <= o or o + sz <= n.off.c:
                    n = n.prev
                    continue
            break
        ty = ir.ity(8 * sz) if sz in (1, 2, 4, 8) else None
        if ty is None:
            return None, None
        ty2 = self.cell_type(r, o, sz) or ty
        return self._load(s, r, K(o), sz, ty2, head), None

    def cell_type(self, r, o, sz):
        # pointer-valued lazily read cells keep their kind
        for k in ('ptr', 'int', 'float'):
            if (id(r), K(o), sz, k) in self.lazy:
                if k == 'ptr':
                    return ir.PTR
        return None


def triples(p, fs):
    """equalities f - g = h + k between joined locations in one state; each side
    is an invariant candidate"""
    n = {f: p.norm(var(f)) for f in fs}
    sig = {}
    for f in fs:
        if n[f].t:
            sig.setdefault(n[f].t, []).append(f)
    out = set()
    for i, f in enumerate(fs):
        for g in fs:
            if f == g or not n[f].t or not n[g].t:
                continue
            d = n[f] - n[g]
            for h in sig.get(d.t, ()):
                if h != f and h != g:
                    e = var(f) - var(g) - var(h) - (d.c - n[h].c)
                    out.add(e)
                    out.add(-e)
    return out


class Zone:
    """difference bounds implied by a polyhedron's two-variable constraints;
    None stands for zero"""

    def __init__(self, p):
        self.p = p
        self.up = {}        # a -> [(b, c)]: a - b >= c
        self.dn = {}        # b -> [(a, c)]: a - b >= c
        for e in p.all_cons():
            self.add(e)
        for s, v in p.sub.items():
            if len(v.t) <= 1:
                self.add(var(s) - v)
                self.add(v - var(s))

    def add(self, e):
        a = b = None
        for s, k in e.t:
            if k == 1 and a is None:
                a = s
            elif k == -1 and b is None:
                b = s
            else:
                return
        self.up.setdefault(a, []).append((b, -e.c))
        self.dn.setdefault(b, []).append((a, -e.c))

    def reach(self, f, sg):
        """sg=1: greatest known l with f - x >= l;  sg=-1: x - f >= l"""
        g = self.up if sg == 1 else self.dn
        best = {f: 0}
        work = [f]
        n = 0
        while work and n < 2000:
            n += 1
            a = work.pop(0)
            for b, c in g.get(a, ()):
                v = best[a] + c
                if v > best.get(b, -INF):
                    best[b] = v
                    if b is not None:
                        work.append(b)
        # through zero
        if None in best:
            z = best[None]
            for b, c in g.get(None, ()):
                if z + c > best.get(b, -INF):
                    best[b] = z + c
        return best

    def lim(self, x, sg):
        lo, hi = self.p.bounds(var(x))
        return lo if sg == 1 else -hi


def candidates(p, newsyms, other=None):
    cand = set(p.all_cons())
    for s, v in p.sub.items():
        e = var(s) - v
        cand.add(e)
        cand.add(-e)
    # express constraints through the join symbols
    for f in newsyms:
        v = p.sub.get(f)
        if v is None or not v.t:
            continue
        for x, k in v.t:
            if k in (1, -1):
                # x = k*(f - rest)
                rest = Lin(v.c, tuple(y for y in v.t if y[0] != x))
                rep = (var(f) - rest).scale(k)
                for g in newsyms:
                    u = p.sub.get(g)
                    if g != f and u is not None:
                        kk = dict(u.t).get(x)
                        if kk:
                            u = var(g) - repl(u, x, rep)
                            cand.add(u)
                            cand.add(-u)
                for c in list(p.all_cons()):
                    d = dict(c.t)
                    if x in d:
                        cand.add(Lin(c.c, tuple(y for y in c.t if y[0] != x)) + rep.scale(d[x]))
    if other is not None:
        # eliminate symbols the other state does not know in favour of shared ones
        def shared(x):
            return x in other.bnd or x in other.sub
        cur = None
        for x, v in p.sub.items():
            if not shared(x):
                continue
            if cur is not None:
                for y, rep in reps:
                    v = repl(v, y, rep)
            for y, k in v.t:
                if k in (1, -1) and not shared(y):
                    rep = (var(x) - Lin(v.c, tuple(z for z in v.t if z[0] != y))).scale(k)
                    if cur is None:
                        cur, reps = set(p.all_cons()), []
                    reps.append((y, rep))
                    cur = {repl(c, y, rep) for c in cur}
                    break
        if cur:
            cand |= cur
    return {c for c in cand if c.t}


def repl(e, y, rep):
    for s, k in e.t:
        if s == y:
            return Lin(e.c, tuple(z for z in e.t if z[0] != y)) + rep.scale(k)
    return e


def mentions(v, js):
    if isinstance(v, Lin):
        return any(x in js for x in v.syms())
    if isinstance(v, Ptr):
        return mentions(v.o, js)
    if isinstance(v, Agg):
        return any(mentions(x, js) for x in v.v)
    if isinstance(v, Cond):
        return mentions(v.e, js)
    return False


def subst_all(e, ren):
    for f, g in ren.items():
        e = subst_lin(e, f, g)
    return e


def rename(p, f, g):
    q = Poly()
    q.sub = {(g if k == f else k): subst_lin(v, f, g) for k, v in p.sub.items()}
    q.bnd = {(g if k == f else k): v for k, v in p.bnd.items()}
    q.cons = {subst_lin(c, f, g) for c in p.cons}
    q.dead = p.dead
    return q


def subst_lin(e, f, g):
    if any(s == f for s, _ in e.t):
        return Lin(e.c, tuple(sorted((g if s == f else s, k) for s, k in e.t)))
    return e


def b_phi(b):
    out = set()
    for i in b.ins:
        if i.op != 'phi':
            break
        out.add(i.res)
    return out


def short(fn):
    d = fn.pretty
    d = d.split('(')[0]
    return d.split('::')[-1] or d
