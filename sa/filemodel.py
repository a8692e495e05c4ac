"""stdio stream over an abstract byte sequence.

A stream is a Region; its content is (region, start, length) plus a position, kept in the
state's ghosts so that paths stay independent."""
from .absint import Ptr, Region, NULLR
from .poly import K, Lin
from . import ir


def make(it, s, src, start, length, name='file'):
    """stream reading src[start, start+length)"""
    f = Region(name, None, 'file', 'undef')
    s.ghost[('fsrc', f.n)] = (src, start, length)
    s.ghost[('fpos', f.n)] = K(0)
    s.ghost[('feof', f.n)] = 0
    return Ptr(f)


def rebind(s, fp, src, start, length):
    s.ghost[('fsrc', fp.r.n)] = (src, start, length)
    s.ghost[('fpos', fp.r.n)] = K(0)
    s.ghost[('feof', fp.r.n)] = 0


def info(s, fp):
    return s.ghost.get(('fsrc', fp.r.n)) if isinstance(fp, Ptr) else None


def install(it, on_read=None):
    def fread(it, s, I, a):
        dst, sz, cnt, fp = a
        x = info(s, fp)
        if x is None:
            return None
        src, start, length = x
        out = []
        for s1, sz1 in it.as_u(s, it.coerce(s, sz, ir.ity(64)), 64):
            for s2, c1 in it.as_u(s1, it.coerce(s1, cnt, ir.ity(64)), 64):
                sz2, c2 = s2.p.norm(sz1), s2.p.norm(c1)
                if sz2.is_const():
                    want, unit = c2.scale(sz2.c), sz2.c
                elif c2.is_const() and c2.c == 1:
                    want, unit = sz2, None
                else:
                    it.report(s2, I, 'file.model', 'fread with two unknown factors', True)
                    out.append((s2, it.top(s2, I.ty, 'fread', True), 'ret'))
                    continue
                pos = s2.ghost[('fpos', fp.r.n)]
                avail = length - pos
                t = s2.copy()
                if t.p.assume(avail - want):
                    if on_read:
                        on_read(it, t, I, dst, want)
                    it.memcpy(t, dst, Ptr(src, start + pos), want, I)
                    t.ghost[('fpos', fp.r.n)] = t.p.norm(pos + want)
                    out.append((t, c2, 'ret'))
                t = s2
                if t.p.assume(want - avail - 1):
                    it.note(t, I, 'short read')
                    if on_read:
                        on_read(it, t, I, dst, avail)
                    it.memcpy(t, dst, Ptr(src, start + pos), avail, I)
                    t.ghost[('fpos', fp.r.n)] = t.p.norm(length)
                    t.ghost[('feof', fp.r.n)] = 1
                    if unit == 1:
                        r = t.p.norm(avail)
                    elif c2.is_const() and c2.c == 1:
                        r = K(0)
                    else:
                        r, _ = it.divmod_c(t, avail, unit)
                    out.append((t, r, 'ret'))
        return out

    def fgetc(it, s, I, a):
        fp = a[0]
        x = info(s, fp)
        if x is None:
            return None
        src, start, length = x
        pos = s.ghost[('fpos', fp.r.n)]
        out = []
        t = s.copy()
        if t.p.assume(length - pos - 1):
            v = it.load(t, Ptr(src, start + pos), ir.ity(8))
            t.ghost[('fpos', fp.r.n)] = t.p.norm(pos + 1)
            if isinstance(v, Lin):
                v = it.mod(t, v, 8)
            out.append((t, v, 'ret'))
        if s.p.assume(pos - length):
            s.ghost[('feof', fp.r.n)] = 1
            out.append((s, K(-1), 'ret'))
        return out

    def ungetc(it, s, I, a):
        c, fp = a
        if info(s, fp) is None:
            return None
        c = s.p.norm(c) if isinstance(c, Lin) else c
        if isinstance(c, Lin) and c.is_const() and c.c in (-1, (1 << 32) - 1):
            return [(s, K(-1), 'ret')]
        s.ghost[('fpos', fp.r.n)] = s.p.norm(s.ghost[('fpos', fp.r.n)] - 1)
        s.ghost[('feof', fp.r.n)] = 0
        return [(s, c, 'ret')]

    def feof(it, s, I, a):
        if info(s, a[0]) is None:
            return None
        return [(s, K(s.ghost[('feof', a[0].r.n)]), 'ret')]

    it.models['fread'] = fread
    it.models['fread_unlocked'] = fread
    it.models['fgetc'] = fgetc
    it.models['getc'] = fgetc
    it.models['_IO_getc'] = fgetc
    it.models['ungetc'] = ungetc
    it.models['feof'] = feof
