"""Which data member does an instruction's address operand denote?

Walks getelementptr chains (instructions and constant expressions) back to the first
base that is not a constant-index getelementptr and names the outermost class."""
import re
from . import ir


def _defs(fn):
    d = getattr(fn, '_defmap', None)
    if d is None:
        d = {}
        for I in fn.instrs():
            if I.res:
                d[I.res] = I
        try:
            fn._defmap = d
        except AttributeError:
            pass
    return d


def clsname(ty):
    """struct.NanoLogInternal::X / class.X.12 -> X"""
    if ty is None or ty.k != 'named':
        return None
    n = ty.a.strip('%"')
    n = re.sub(r'^(struct|class|union)\.', '', n)
    n = re.sub(r'\.base$', '', n)
    n = re.sub(r'\.\d+$', '', n)
    return n


def _gep(mod, ety, idx):
    """(offset, exact) of constant indices; variable array indices keep the offset"""
    off = 0
    ty = ety
    first = True
    for v in idx:
        c = v.v if v.k == 'int' else None
        if first:
            if c is None:
                return None
            off += c * mod.sizeof(ty)
            first = False
            continue
        r = mod.resolve(ty)
        if r.k == 'struct':
            off += mod.layout(r)[2][c]
            ty = r.a[c]
        elif r.k in ('arr', 'vec'):
            if c is not None:
                off += c * mod.sizeof(r.b)
            ty = r.b
        else:
            return None
    return off


def address(mod, fn, v, depth=0):
    """(base, class name or None, offset): base = ('global', name) | ('local', ssa name) | ('arg', i) | ..."""
    if depth > 40:
        return (('?', None), None, 0)
    if v.k == 'global':
        g = mod.global_init(v.v)
        return (('global', v.v), clsname(g[2]) if g else None, 0)
    if v.k == 'cexpr' and v.v[0] == 'getelementptr':
        _, ety, args = v.v
        b, c, o = address(mod, fn, args[0], depth + 1)
        g = _gep(mod, ety, args[1:])
        if g is None:
            return (b, c, None)
        if c is None and ety.k == 'named':
            return (b, clsname(ety), g)
        return (b, c, None if o is None else o + g)
    if v.k == 'local':
        I = _defs(fn).get(v.v)
        if I is None:
            return (('arg', v.v), None, 0)
        if I.op == 'getelementptr':
            ety = I.x if not isinstance(I.x, (tuple, list)) else I.x[0]
            b, c, o = address(mod, fn, I.ops[0], depth + 1)
            g = _gep(mod, ety, I.ops[1:])
            if g is None:
                return (b, c or clsname(ety), None)
            if c is None and ety.k == 'named':
                return (b, clsname(ety), g)
            if c is not None and b[0] in ('load', 'call', 'arg', 'phi', 'select') and ety.k == 'named' and o == 0:
                # first typed step from an untyped base decides
                return (b, c, g)
            return (b, c, None if o is None else o + g)
        if I.op in ('bitcast', 'addrspacecast'):
            return address(mod, fn, I.ops[0], depth + 1)
        if I.op == 'alloca':
            return (('alloca', v.v), clsname(I.x if not isinstance(I.x, (tuple, list)) else I.x[0]), 0)
        return ((I.op, v.v), None, 0)
    return ((v.k, None), None, 0)


def callers(mod):
    """callee -> set of functions containing a direct call of it"""
    c = getattr(mod, '_callers', None)
    if c is None:
        c = {}
        for n, f in mod.fns.items():
            for I in f.instrs():
                if I.op in ('call', 'invoke'):
                    for m in re.findall(r'@[\w.$"]+', I.text.split('!dbg')[0]):
                        c.setdefault(m.strip('"'), set()).add(n)
                        c.setdefault(m[1:], set()).add(n)
        mod._callers = c
    return c


def stores_to(mod, fn, cls, off):
    out = []
    for I in fn.instrs():
        if I.op in ('store', 'atomicrmw', 'cmpxchg'):
            v = I.ops[1] if I.op == 'store' else I.ops[0]
            b, c, o = address(mod, fn, v)
            if c and c.split('::')[-1] == cls and o == off:
                out.append(I)
    return out
