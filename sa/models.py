"""Models of external functions (libc, compiler intrinsics, fences)."""
from .poly import Lin, K, var, fresh, INF
from . import ir


def install(I):
    from .absint import Ptr, NULL, NULLR, Region, Opq, Cond, W, AnalysisError

    def ret(s, v=None):
        return [(s, v, 'ret')]

    def lin(s, v, w=64):
        return s.p.norm(v) if isinstance(v, Lin) else None

    def nop(it, s, ins, a):
        return ret(s, it.top(s, ins.ty, 'nop') if ins.ty.k != 'void' else None)

    def m_memcpy(it, s, ins, a):
        n = lin(s, a[2])
        dst, src = a[0], a[1]
        outs = []
        if n is None:
            if isinstance(dst, Ptr):
                it.havoc(s, dst.r, None, None, ins)
            return ret(s, dst)
        for s2, n2 in it.as_u(s, n, 64):
            if it.on_mem is not None:
                it.on_mem(it, s2, ins, 'write', dst, n2, src)
                it.on_mem(it, s2, ins, 'read', src, n2, None)
            it.memcpy(s2, dst, src, n2, ins)
            outs.append((s2, dst, 'ret'))
        return outs

    def m_memset(it, s, ins, a):
        n = lin(s, a[2])
        if isinstance(a[0], Ptr):
            if it.on_mem is not None and n is not None:
                it.on_mem(it, s, ins, 'write', a[0], n, None)
            if n is None:
                it.havoc(s, a[0].r, None, None, ins)
            else:
                s.mem[a[0].r] = W(s.p.norm(a[0].o), n, 'fill', a[1], s.mem.get(a[0].r), ins)
        return ret(s, a[0])

    def m_bzero(it, s, ins, a):
        return m_memset(it, s, ins, [a[0], K(0), a[1]])

    def m_strlen(it, s, ins, a):
        p = a[0]
        if isinstance(p, Ptr):
            key = ('strlen', id(p.r), s.p.norm(p.o))
            ini = p.r.init
            if isinstance(ini, tuple) and s.p.norm(p.o).is_const():
                v = ini[2]
                if v.k == 'str':
                    b = ir.dec_str(v.v)[s.p.norm(p.o).c:]
                    if 0 in b:
                        return ret(s, K(b.index(0)))
                if v.k == 'zero':
                    return ret(s, K(0))
            v = it.opmemo.get(key)
            if v is None:
                v = it.opmemo[key] = fresh('strlen(%r)' % p)
            s.p.declare(v, 0, it.max_strlen)
            return ret(s, s.p.norm(var(v)))
        return ret(s, it.sym(s, 'strlen', 0, it.max_strlen))

    def m_strnlen(it, s, ins, a):
        outs = []
        for s1, L, _ in m_strlen(it, s, ins, a):
            n = lin(s1, a[1])
            if n is None:
                return ret(s1, it.sym(s1, 'strnlen', 0, it.max_strlen))
            for s2, n2 in it.as_u(s1, n, 64):
                t = s2.copy()
                if t.p.assume(n2 - L):
                    outs.append((t, L, 'ret'))
                if s2.p.assume(L - n2 - 1):
                    outs.append((s2, n2, 'ret'))
        return outs

    def m_assume(it, s, ins, a):
        out = []
        for s2, b in it.split_bool(s, a[0]):
            if b:
                out.append((s2, None, 'ret'))
        return out

    def m_expect(it, s, ins, a):
        return ret(s, a[0])

    def m_umin(sel):
        def f(it, s, ins, a):
            out = []
            w = ins.ty.a
            sg = 's' if sel[0] == 's' else 'u'
            conv = it.as_s if sg == 's' else it.as_u
            if not (isinstance(a[0], Lin) and isinstance(a[1], Lin)):
                return ret(s, it.top(s, ins.ty, sel, True))
            for s1, x in conv(s, a[0], w):
                for s2, y in conv(s1, a[1], w):
                    for s3, b in it.split_bool(s2, it.decide(s2, Cond('ge', y - x))):
                        lo, hi = (x, y) if b else (y, x)
                        out.append((s3, lo if sel.endswith('min') else hi, 'ret'))
            return out
        return f

    def m_overflow(kind):
        def f(it, s, ins, a):
            from .absint import Agg
            w = ins.ops[0].ty.a
            if kind[0] == 'u':
                conv, lo, hi = it.as_u, 0, (1 << w) - 1
            else:
                conv, lo, hi = it.as_s, -(1 << (w - 1)), (1 << (w - 1)) - 1
            out = []
            if not (isinstance(a[0], Lin) and isinstance(a[1], Lin)):
                return ret(s, it.top(s, ins.ty, kind, True))
            for s1, x in conv(s, a[0], w):
                for s2, y in conv(s1, a[1], w):
                    if 'add' in kind:
                        e = x + y
                    elif 'sub' in kind:
                        e = x - y
                    else:
                        y2 = s2.p.norm(y)
                        x2 = s2.p.norm(x)
                        if y2.is_const():
                            e = x.scale(y2.c)
                        elif x2.is_const():
                            e = y.scale(x2.c)
                        else:
                            out.append((s2, Agg([it.top_int(s2, w, 'mulo'), it.top_int(s2, 1, 'of')]), 'ret'))
                            continue
                    t = s2.copy()
                    if t.p.assume(e - lo) and t.p.assume(K(hi) - e):
                        out.append((t, Agg([e, K(0)]), 'ret'))
                    for side in (e - hi - 1, K(lo - 1) - e):
                        t = s2.copy()
                        if t.p.assume(side):
                            out.append((t, Agg([it.mod(t, e, w), K(1)]), 'ret'))
            return out
        return f

    def m_alloc(it, s, ins, a):
        n = lin(s, a[-1] if ins.x['callee'].v[1:] in ('calloc', 'realloc') else a[0])
        r = Region('heap@%s' % it.where(ins).split('/')[-1], None, 'heap',
                   'zero' if 'calloc' in ins.x['callee'].v else 'undef')
        if n is not None:
            r.size = n.c if n.is_const() else n
        nm = ins.x['callee'].v[1:]
        if nm in ('malloc', 'calloc', 'realloc') and it.malloc_may_fail:
            f = s.copy()
            it.note(f, ins, 'allocation fails')
            return [(s, Ptr(r), 'ret'), (f, NULL, 'ret')]
        return ret(s, Ptr(r))

    def m_throw(it, s, ins, a):
        return [(s, None, 'unwind')]

    def m_noret(it, s, ins, a):
        return []

    def m_begin_catch(it, s, ins, a):
        return ret(s, it.top(s, ins.ty, 'exc'))

    def m_cpy_ret0(it, s, ins, a):
        return ret(s, a[0])

    def pass_top(it, s, ins, a):
        return ret(s, it.top(s, ins.ty, ins.x['callee'].v[1:]) if ins.ty.k != 'void' else None)

    I.on_mem = None
    I.max_strlen = (1 << 31)
    I.malloc_may_fail = True
    M = I.models
    P = I.prefix_models
    for n in ('memcpy', 'memmove'):
        M[n] = m_memcpy
    P.append(('llvm.memcpy.', m_memcpy))
    P.append(('llvm.memmove.', m_memcpy))
    M['memset'] = m_memset
    M['bzero'] = m_bzero
    P.append(('llvm.memset.', m_memset))
    M['strlen'] = m_strlen
    M['strnlen'] = m_strnlen
    M['llvm.assume'] = m_assume
    P.append(('llvm.expect.', m_expect))
    for k in ('umin', 'umax', 'smin', 'smax'):
        P.append(('llvm.%s.' % k, m_umin(k)))
    for k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
        P.append(('llvm.%s.with.overflow' % k, m_overflow(k)))
    for n in ('_Znwm', '_Znam', 'malloc', 'calloc'):
        M[n] = m_alloc
    M['__cxa_throw'] = m_throw
    M['__cxa_rethrow'] = m_throw
    for n in ('exit', '_exit', 'abort', '__assert_fail', '_ZSt9terminatev', '__clang_call_terminate'):
        M[n] = m_noret
    M['__cxa_begin_catch'] = m_begin_catch
    for n in ('fprintf', 'printf', 'puts', 'perror', 'fflush', 'strerror', '__cxa_end_catch',
              '__cxa_allocate_exception', '__cxa_free_exception', 'llvm.stackrestore',
              'llvm.stacksave', 'sched_getcpu', 'free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', 'fputc',
              'putchar', 'fputs', 'fwrite', '__errno_location', 'llvm.stackrestore.p0',
              'llvm.stacksave.p0', 'llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0', 'llvm.va_start',
              'llvm.va_end', 'llvm.va_start.p0', 'llvm.va_end.p0', 'llvm.trap'):
        M[n] = pass_top
    P.append(('llvm.prefetch', nop))
    P.append(('llvm.x86.sse', nop))

    def m_launder(it, s, ins, a):
        return ret(s, a[0])
    P.append(('llvm.launder', m_launder))
    P.append(('llvm.strip', m_launder))
    P.append(('llvm.ptr.annotation', m_launder))
    P.append(('llvm.threadlocal.address', m_launder))
    P.append(('llvm.is.constant', lambda it, s, ins, a: ret(s, K(0))))

    def m_objsize(it, s, ins, a):
        return ret(s, K(-1))
    P.append(('llvm.objectsize', m_objsize))
