"""Shared machinery of C02, C07 and C12: witness logging statements of the C++17 front end.

Each witness logs one statement through NANO_LOG with symbolic arguments, then lets the
registered compression function read back what was staged and decodes the result the way the
decoder does.  The staging buffer's reserve/publish operations and the registration of a
logging site are events; everything else is the repository's code."""
import re
from sa import build, ir, access
from sa.absint import Interp, State, Ptr, Region, Opq, Cond, NULLR, AnalysisError, fresh
from sa.poly import K, Lin, var
from checks.c09 import same

HEAD = r'''
#define EXPOSE_PRIVATES
#include "RuntimeLogger.cc"
#include "NanoLog.cc"
#include "NanoLogCpp17.h"
#include "Log.h"
#include <wchar.h>
namespace GeneratedFunctions { size_t numLogIds = 0; }
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;
using namespace NanoLog::LogLevels;
typedef BufferUtils::Nibbler Nib;
extern "C" {
void __sa_level(int before, int wanted, int got);
void __sa_eval();
int __sa_enter(int which);
void __sa_logged(int severity, int line);
const StaticLogInfo *__sa_site();
char *__sa_staged();
void __sa_compressed(const char *in, const char *out);
void __sa_eq(uint64_t got, uint64_t want, const char *what);
void __sa_eqd(double got, double want, const char *what);
void __sa_eql(long double got, long double want, const char *what);
void __sa_str(const void *got, const void *want, uint64_t chars, int width, const char *what);
void __sa_done(const char *end);
void __sa_fmt(const char *fmt, const char *file, int nparams);
}
static_assert((int)SILENT_LOG_LEVEL == 0 && (int)ERROR == 1 && (int)WARNING == 2 && (int)NOTICE == 3 && (int)DEBUG == 4 && (int)NUM_LOG_LEVELS == 5,
              "log levels");
extern "C" void w_set(int v, int which) {
    int before = (int)NanoLog::getLogLevel();
    if (which) NanoLog::setLogLevel((NanoLog::LogLevel)v); else RuntimeLogger::setLogLevel((NanoLog::LogLevel)v);
    __sa_level(before, v, (int)NanoLog::getLogLevel());
}
static uint64_t lim(uint64_t n, uint64_t m) { return n < m ? n : m; }
'''

# (C++ type, conversion, decoded type)
SCALARS = [
    ('int', 'd', 'int'), ('int', 'i', 'int'), ('int', 'c', 'int'), ('char', 'c', 'int'), ('char', 'd', 'int'),
    ('signed char', 'hhd', 'signed char'), ('unsigned char', 'hhu', 'unsigned char'), ('short', 'hd', 'short'),
    ('unsigned short', 'hu', 'unsigned short'), ('short', 'd', 'int'), ('unsigned char', 'x', 'unsigned int'),
    ('bool', 'd', 'int'), ('unsigned', 'u', 'unsigned int'), ('unsigned', 'x', 'unsigned int'), ('unsigned', 'o', 'unsigned int'),
    ('unsigned', 'X', 'unsigned int'), ('long', 'ld', 'long'), ('unsigned long', 'lu', 'unsigned long'),
    ('unsigned long', 'lx', 'unsigned long'), ('long long', 'lld', 'long long'), ('unsigned long long', 'llu', 'unsigned long long'),
    ('intmax_t', 'jd', 'intmax_t'), ('uintmax_t', 'ju', 'uintmax_t'), ('size_t', 'zu', 'size_t'), ('ptrdiff_t', 'td', 'ptrdiff_t'),
    ('wint_t', 'lc', 'wint_t'), ('int8_t', 'd', 'int'), ('int64_t', 'ld', 'long'),
]
FLOATS = [('double', 'f', 'double'), ('double', 'lf', 'double'), ('float', 'f', 'double'), ('double', 'e', 'double'), ('double', 'G', 'double'),
          ('double', 'a', 'double'), ('long double', 'Lf', 'long double'), ('long double', 'Lg', 'long double')]
POINTERS = ['const void *', 'void *', 'const char *', 'char *', 'const wchar_t *', 'int *']
STRINGS = ['%s', '%.3s', '%.0s', '%.12s', '%10s', '%-8.4s', '%.*s', '%*s', '%*.*s', '%-*.*s']


class Arg:
    def __init__(self, fmt, **kw):
        self.fmt = fmt
        self.__dict__.update(kw)


def scalar(t, conv, d, flags=''):
    return Arg('%' + flags + conv, kind='int', t=t, d=d)


def flt(t, conv, d):
    return Arg('%' + conv, kind='flt', t=t, d=d)


def ptr(t):
    return Arg('%p', kind='ptr', t=t)


def string(fmt, wide=False, const=True):
    if wide:
        fmt = fmt[:-1] + 'ls'
    c = 'wchar_t' if wide else 'char'
    return Arg(fmt, kind='str', t=('const ' if const else '') + c + ' *', wide=wide)


def statements(tier):
    out = [[]]
    for x in SCALARS:
        out.append([scalar(*x)])
    out.append([scalar('int', 'd', 'int', '*')])
    out.append([scalar('int', 'd', 'int', '*.*')])
    out.append([scalar('int', 'd', 'int', '-08.3')])
    for x in FLOATS:
        out.append([flt(*x)])
    out.append([Arg('%*.*f', kind='flt', t='double', d='double')])
    out.append([Arg('%.*f', kind='flt', t='double', d='double')])
    for t in POINTERS:
        out.append([ptr(t)])
    for f in STRINGS:
        out.append([string(f)])
        if f in ('%s', '%.3s', '%.*s', '%*.*s', '%10s'):
            out.append([string(f, True)])
            out.append([string(f, False, False)])
            out.append([string(f, True, False)])
    reps = [lambda: scalar('int', 'd', 'int'), lambda: flt('double', 'f', 'double'), lambda: string('%s'), lambda: string('%.2s'),
            lambda: string('%.*s'), lambda: string('%s', True), lambda: ptr('const char *'), lambda: scalar('signed char', 'hhd', 'signed char')]
    for a in reps:
        for b in reps:
            out.append([a(), b()])
    tri = [0, 2, 4, 6]
    for a in tri:
        for b in tri:
            for c in tri:
                if len({a, b, c}) > 1 or a == 4 or tier != 'quick':
                    out.append([reps[a](), reps[b](), reps[c]()])
    out.append([reps[k]() for k in (0, 2, 1, 5, 4, 6)])
    out.append([reps[k]() for k in (4, 4, 3, 2, 7, 0, 1)])
    out.append([reps[k]() for k in (2, 2, 2, 2)])
    out.append([reps[0]() for k in range(9)])
    return out


LEVELS = ['SILENT_LOG_LEVEL', 'ERROR', 'WARNING', 'NOTICE', 'DEBUG']


def emit(stmts):
    src = [HEAD]
    meta = []
    for n, args in enumerate(stmts):
        sev = LEVELS[1 + n % 4]
        params, call, dec, strs = [], [], [], []
        fmt = 'S%d' % n
        for i, a in enumerate(args):
            fmt += ' ' + a.fmt
            stars = a.fmt.count('*')
            dynprec = '.*' in a.fmt
            names = []
            for k in range(stars):
                v = 'y%d_%d' % (i, k)
                params.append('int ' + v)
                call.append(v)
                names.append(v)
                dec.append('__sa_eq((uint64_t)(int64_t)nb.getNext<int>(), (uint64_t)(int64_t)%s, "width or precision of argument %d");' % (v, i))
            v = 'a%d' % i
            params.append('%s %s' % (a.t, v))
            call.append(v)
            if a.kind == 'int':
                dec.append('__sa_eq((uint64_t)(int64_t)nb.getNext<%s>(), (uint64_t)(int64_t)(%s)%s, "argument %d");' % (a.d, a.d, v, i))
            elif a.kind == 'flt':
                f = '__sa_eql' if a.d == 'long double' else '__sa_eqd'
                dec.append('%s(nb.getNext<%s>(), (%s)%s, "argument %d");' % (f, a.d, a.d, v, i))
            elif a.kind == 'ptr':
                dec.append('__sa_eq((uint64_t)nb.getNext<const void *>(), (uint64_t)(const void *)%s, "argument %d");' % (v, i))
            else:
                ln = 'wcslen' if a.wide else 'strlen'
                m = re.search(r'\.(\d+)', a.fmt)
                L = '%s(%s)' % (ln, v)
                if m:
                    L = 'lim(%s, %s)' % (L, m.group(1))
                elif dynprec:
                    L = '(%s < 0 ? %s : lim(%s, (uint64_t)%s))' % (names[-1], L, L, names[-1])
                w = 'sizeof(wchar_t)' if a.wide else '1'
                strs.append('{ uint64_t L = %s; __sa_str(s, %s, L, %s, "argument %d"); s += (L + 1) * %s; }' % (L, v, w, i, w))
        cargs = ''.join(', ' + x for x in call)
        if call:
            cargs = ', (__sa_eval(), %s)' % call[0] + ''.join(', ' + x for x in call[1:])
        src.append('extern "C" void w_%d(char *out%s) {' % (n, ''.join(', ' + p for p in params)))
        src.append('    if (__sa_enter(%d)) {\n#line %d "statements"\n        NANO_LOG(%s, "%s"%s);\n    }' % (n, 1000 + n, sev, fmt, cargs))
        src.append('    __sa_logged((int)%s, %d);' % (sev, 1000 + n))
        src.append('    const StaticLogInfo *info = __sa_site(); char *o = out, *in = __sa_staged();')
        src.append('    __sa_fmt("%s", "statements", %d);' % (fmt, len(call)))
        src.append('    info->compressionFunction(info->numNibbles, info->paramTypes, &in, &o);')
        src.append('    __sa_compressed(in, o);')
        src.append('    Nib nb(out, info->numNibbles); const char *s = nb.getEndOfPackedArguments();')
        src += ['    ' + x for x in dec + strs]
        src.append('    __sa_done(%s);\n}' % ('s' if strs else 'nb.currPackedValue'))
        meta.append((sev, fmt, args, len(call)))
    return '\n'.join(src), meta


class Front:
    def __init__(self, mod):
        self.mod = mod
        self.reached = {}
        self.prepare()

    def interp(self):
        it = Interp(self.mod, unroll=3, max_steps=4000000)
        self.it = it
        it.max_strlen = 1 << 20
        M = it.models
        for n in ('eval', 'enter', 'logged', 'site', 'staged', 'compressed', 'eq', 'eqd', 'eql', 'str', 'done', 'fmt'):
            M['__sa_' + n] = getattr(self, 'm_' + n)
        M['__assert_fail'] = self.m_assert
        M['wcslen'] = self.m_wcslen
        M['wcsnlen'] = self.m_wcsnlen
        M['__sa_reserve'] = self.m_reserve
        for n, f in self.anchors.items():
            M[n] = f
        for n, (op, kind, t) in self.packs.items():
            M[n] = getattr(self, op)(kind, t)
        for n in list(self.mod.fns):
            if re.search(r'\bgetSizeOfPackedValues\(', self.mod.demangle(n)):
                M[n] = self.sizeof_packed
        it.do_asm = self.asm
        it.on_store = self.on_store
        it.on_load = self.on_load
        return it

    # ---- memory shared between logging threads
    def shared(self, r):
        if r.kind != 'global' or r is self.tlsr:
            return False
        return 'thread_local' not in self.mod.globals.get(r.name[1:], '') and 'thread_local' not in self.mod.globals.get(r.name, '')

    def on_store(self, it, s, I, p, v, size):
        g = s.ghost
        if g['phase'] == 'log' and isinstance(p, Ptr) and I.op == 'store' and self.shared(p.r) \
                and not (g['idcell'] and p.r is g['idcell'].r):
            g['wrote'] = g.get('wrote', frozenset()) | {p.r.name}
        return None

    def on_load(self, it, s, I, p, ty):
        g = s.ghost
        if g['phase'] == 'log' and g.get('wrote') and isinstance(p, Ptr) and p.r.name in g['wrote']:
            it.require(s, I, 'front.shared', False,
                       'the message is built through %s, which every logging thread writes' % self.mod.demangle(p.r.name.lstrip('@')))
        return None

    # ---- helpers
    def what(self, v):
        if isinstance(v, Ptr):
            s = self.mod.cstring(v.r.name.lstrip('@'))
            if s:
                return s.rstrip(b'\0').decode()
        return '?'

    def asm(self, s, I, code, args):
        from sa.absint import Agg
        it = self.it
        v = it.top(s, I.ty, 'asm')
        if isinstance(v, Agg) and len(v.v) == 2 and 'rdtsc' in str(code):
            lo, hi = it.top_int(s, 32, 'tsc.lo'), it.top_int(s, 32, 'tsc.hi')
            v = Agg([lo, hi])
            s.ghost['tsc'] = s.ghost['tsc'] + (hi.scale(1 << 32) + lo,)
        return [(s, v)]

    def m_assert(self, it, s, I, a):
        it.require(s, I, 'front.assert', False, 'an assertion fails on a legal logging statement')
        return []

    def m_wcslen(self, it, s, I, a):
        p = a[0]
        key = ('wcslen', id(p.r), s.p.norm(p.o)) if isinstance(p, Ptr) else None
        v = it.opmemo.get(key)
        if v is None:
            v = it.opmemo[key] = fresh('wcslen')
        s.p.declare(v, 0, it.max_strlen)
        return [(s, s.p.norm(var(v)), 'ret')]

    def m_wcsnlen(self, it, s, I, a):
        outs = []
        for s1, L, _ in self.m_wcslen(it, s, I, a):
            for s2, n2 in it.as_u(s1, a[1], 64):
                t = s2.copy()
                if t.p.assume(n2 - L):
                    outs.append((t, L, 'ret'))
                if s2.p.assume(L - n2 - 1):
                    outs.append((s2, n2, 'ret'))
        return outs

    # ---- pack / unpack by contract (decided by C09, including the type pairs used here)
    CXX = {'char': (1, True), 'signed char': (1, True), 'unsigned char': (1, False), 'bool': (1, False), 'short': (2, True),
           'unsigned short': (2, False), 'int': (4, True), 'unsigned int': (4, False), 'long': (8, True), 'unsigned long': (8, False),
           'long long': (8, True), 'unsigned long long': (8, False), 'wchar_t': (4, True)}

    def contracts(self):
        out = {}
        for n in list(self.mod.fns) + list(self.mod.decls):
            d = self.mod.demangle(n)
            m = re.search(r'\bBufferUtils::pack(?:<[^<>]*>)?\(char\*\*, ([^()]*)\)$', d)
            op = 'pack'
            if not m:
                m = re.search(r'\bBufferUtils::unpack<([^<>]*)>\(', d)
                op = 'unpack'
            if not m:
                continue
            t = m.group(1).strip()
            kind = 'p' if t.endswith('*') else 'f' if t in ('float', 'double', 'long double') else 'i'
            if kind == 'i' and t not in self.CXX:
                raise AnalysisError('pack/unpack of type %s' % t)
            out[n] = (op, kind, t)
        return out

    def pack(self, kind, t):
        def f(it, s, I, a):
            ptrs = [x for x in a if isinstance(x, Ptr)]
            p = a[0]
            cur = it.load(s, p, ir.PTR)
            v = a[1]
            n = len(s.ghost['packed'])
            if not it.require(s, I, 'args.out', isinstance(cur, Ptr) and cur.r is self.out, 'packing outside the output buffer'):
                return []
            if kind == 'f':
                size = {'float': 4, 'double': 8, 'long double': 16}[t]
                k, r = K(size), K(size)
            else:
                size, sg = self.CXX[t] if kind == 'i' else (8, False)
                k = it.sym(s, 'len%d' % n, 1, size)
                r = k
                if kind == 'i' and sg:
                    r = k + it.sym(s, 'neg%d' % n, 0, 1).scale(8)
                    s.p.assume(K(15) - r)
                if kind == 'i':
                    outs = (it.as_s if sg else it.as_u)(s, v, 8 * size)
                    if len(outs) != 1:
                        res = []
                        for s2, v2 in outs:
                            res += self.packed(it, s2, I, p, cur, (kind, t, v2), k, r)
                        return res
                    s, v = outs[0]
            return self.packed(it, s, I, p, cur, (kind, t, v), k, r)
        return f

    def packed(self, it, s, I, p, cur, val, k, r):
        o = s.p.norm(cur.o)
        from sa.absint import W
        if val[0] == 'i':
            lo, hi = s.p.bounds(val[2])
            for m in (1, 2, 4):
                # values of a narrower type take no more bytes than that type (C09)
                if lo > -(1 << 8 * m) and hi < 1 << 8 * m:
                    s.p.assume(K(m) - k)
                    break
        s.mem[self.out] = W(o, k, 'top', None, s.mem.get(self.out), I)
        s.ghost['packed'] = s.ghost['packed'] + ((o, k, r, val),)
        it.store(s, p, Ptr(cur.r, o + k), 8)
        return [(s, r, 'ret')]

    def unpack(self, kind, t):
        def f(it, s, I, a):
            p = a[0]
            cur = it.load(s, p, ir.PTR)
            nib = a[1]
            for (o, k, r, (k2, t2, v)) in s.ghost['packed']:
                if isinstance(cur, Ptr) and cur.r is self.out and s.p.entails_eq(cur.o - o):
                    break
            else:
                it.require(s, I, 'args.position', False, 'decoding starts at %r where no argument was packed' % (cur,))
                return []
            want = s.p.norm(r)
            if want.is_const():
                want = K(want.c & 15)
            it.require(s, I, 'args.nibble', isinstance(nib, Lin) and s.p.entails_eq(nib - want),
                       'an argument is decoded with nibble %r, packed with %r' % (nib, want))
            it.store(s, p, Ptr(cur.r, o + k), 8)
            # some byte of the packed value overwritten later?
            n = s.mem.get(self.out)
            while n is not None:
                if n.kind == 'top' and n.off is not None and n.off == o:
                    break
                ok = n.off is not None and n.size is not None and (s.p.entails(o - n.off - n.size) or s.p.entails(n.off - o - k))
                if not it.require(s, I, 'args.overwrite', ok, 'packed bytes of an argument are overwritten'):
                    break
                n = n.prev
            if kind == 'f':
                ok = k2 == 'f' and (t2 == t or t2 == 'float')
                it.require(s, I, 'args.type', ok, '%s decoded as %s' % (t2, t))
                if t2 == 'float' and t == 'double':
                    key = ('fpext', getattr(v, 'i', v), 'float', 'double')
                    if key not in it.opmemo:
                        it.opmemo[key] = Opq('fpext')
                    return [(s, it.opmemo[key], 'ret')]
                return [(s, v, 'ret')]
            if kind == 'p':
                it.require(s, I, 'args.type', k2 == 'p', '%s decoded as %s' % (t2, t))
                return [(s, v, 'ret')]
            if k2 != 'i':
                it.require(s, I, 'args.type', False, '%s decoded as %s' % (t2, t))
                return []
            return [(s2, v2, 'ret') for s2, v2 in self.conv(it, s, v, t)]
        return f

    def sizeof_packed(self, it, s, I, a):
        """contract of getSizeOfPackedValues (C09) on the nibbles compression stored"""
        pk = s.ghost['packed']
        p = [x for x in a if isinstance(x, Ptr)]
        n = [x for x in a if isinstance(x, Lin)]
        if len(p) != 1 or len(n) != 1 or p[0].r is not self.out:
            return None
        if not it.require(s, I, 'args.nibble-count', s.p.norm(n[0]) == K(len(pk)),
                          'decoder expects %r packed arguments, %d were packed' % (n[0], len(pk))):
            return []
        tot = K(0)
        for (o, k, r, v) in pk:
            tot = tot + k
        return [(s, s.p.norm(tot), 'ret')]

    def conv(self, it, s, v, t):
        size = self.CXX[t][0]
        return [(s2, w) for s2, w in it.wrap(s, v, 8 * size)]

    # ---- events
    def m_enter(self, it, s, I, a):
        s.ghost['phase'] = 'log'
        return [(s, K(1), 'ret')]

    def m_eval(self, it, s, I, a):
        s.ghost['evals'] += 1
        return [(s, None, 'ret')]

    def m_ensure(self, it, s, I, a):
        r = Region('newsb', None, 'heap')
        it.store(s, Ptr(self.tls(it)), Ptr(r), 8)
        return [(s, None, 'ret')]

    def tls(self, it):
        g = [n for n in self.mod.globals if re.search(r'RuntimeLogger13stagingBufferE$', n)]
        if len(g) != 1:
            raise AnalysisError('thread-local stagingBuffer not found')
        return it.region_of_global(g[0].lstrip('@'))

    def m_register(self, it, s, I, a):
        g = s.ghost
        # (this, int &logId, StaticLogInfo info)   -- order of the two does not matter
        ids = [p for p in a[1:] if isinstance(p, Ptr)]
        info = [p for p in ids if p.r.kind == 'stack' or 'byval' in p.r.name]
        lid = [p for p in ids if p not in info]
        if len(info) != 1 or len(lid) != 1:
            raise AnalysisError('registration call not understood')
        it.require(s, I, 'front.register-once', g['site'] is None, 'a logging site registers twice in one statement')
        r = Region('site', None, 'heap')
        it.memcpy(s, Ptr(r), info[0], K(self.infosize), I)
        g['site'] = r
        idv = it.sym(s, 'newid', 0, (1 << 31) - 1)
        g['id'] = idv
        g['idcell'] = lid[0]
        it.store(s, lid[0], idv, 4)
        return [(s, None, 'ret')]

    def m_reserve(self, it, s, I, a):
        g = s.ghost
        it.require(s, I, 'front.pairing', g['open'] is None, 'space is reserved twice before publication')
        it.require(s, I, 'front.pairing', s.mem.get(self.msg) is None, 'a message is written before its space is reserved')
        out = []
        for s2, n in it.as_u(s, a[1], 64):
            g2 = s2.ghost
            g2['open'] = n
            g2['nres'] += 1
            r = self.msg
            g2['base'] = K(0)
            out.append((s2, Ptr(r, K(0)), 'ret'))
        return out

    def m_publish(self, it, s, I, a):
        g = s.ghost
        if not it.require(s, I, 'front.pairing', g['open'] is not None, 'space is published that was not reserved'):
            return [(s, None, 'ret')]
        out = []
        for s2, n in it.as_u(s, a[1], 64):
            g2 = s2.ghost
            it.require(s2, I, 'front.same-size', s2.p.entails_eq(n - g2['open']),
                       'reserved %r bytes, published %r' % (s2.p.norm(g2['open']), s2.p.norm(n)))
            for w in self.writes(s2):
                if w.off is None or w.size is None:
                    it.require(s2, w.who or I, 'front.in-bounds', False, 'write of unknown position into a message')
                    continue
                it.require_ge(s2, w.who or I, 'front.in-bounds', w.off, 'write below the reserved space')
                it.require_ge(s2, w.who or I, 'front.in-bounds', n - w.off - w.size, 'write past the reserved space')
            left = self.uncovered(s2, n)
            it.require(s2, I, 'front.complete', left is None, 'bytes from offset %r of the message are not written before it is published' % left)
            for (nm, off, w) in self.hdr:
                v = it.load(s2, Ptr(self.msg, K(off)), ir.ity(8 * w))
                if nm == 'entrySize':
                    ok = isinstance(v, Lin) and s2.p.entails_eq(v - n)
                    msg = 'recorded size %r of a message of %r bytes' % (v, s2.p.norm(n))
                elif nm == 'fmtId':
                    iv = it.load(s2, g2['idcell'], ir.ity(32)) if g2['idcell'] is not None else None
                    ok = iv is not None and same(it, s2, v, iv, 32)
                    msg = 'recorded log id %r is not the id of the statement (%r)' % (v, iv)
                else:
                    ok = any(same(it, s2, v, t, 64) for t in g2['tsc'])
                    msg = 'recorded timestamp is not read from the clock during the call'
                it.require(s2, I, 'front.header', ok, msg)
            g2['pub'] = n
            g2['open'] = None
            g2['head'] = s2.mem.get(self.msg)
            g2['npub'] += 1
            out.append((s2, None, 'ret'))
        return out

    def writes(self, s):
        out, n = [], s.mem.get(self.msg)
        while n is not None:
            out.append(n)
            n = n.prev
        return out

    def uncovered(self, s, n):
        """first offset below n no write covers, None if there is none"""
        cur = K(0)
        iv = [(w.off, w.size) for w in self.writes(s) if w.off is not None and w.size is not None and w.kind != 'top']
        for _ in range(len(iv) + 2):
            if s.p.entails(cur - n):
                return None
            for k, (o, sz) in enumerate(iv):
                if s.p.entails(cur - o) and s.p.entails(o + sz - cur):
                    if s.p.entails_eq(o + sz - cur):
                        continue
                    cur = s.p.norm(o + sz)
                    del iv[k]
                    break
            else:
                return s.p.norm(cur)
        return None if s.p.entails(cur - n) else s.p.norm(cur)

    def m_logged(self, it, s, I, a):
        g = s.ghost
        self.reached[self.n] = self.reached.get(self.n, 0) + 1
        sev = s.p.norm(a[0])
        lvl = self.level(it, s)
        if lvl is None:
            raise AnalysisError('current log level not found')
        it.require(s, I, 'front.pairing', g['open'] is None, 'reserved space is never published')
        if g['npub'] or g['nres'] or g['site'] is not None or g['evals']:
            it.require_ge(s, I, 'level.suppressed', lvl - sev, 'a statement less severe than the current level has an effect')
        if not g['npub']:
            it.require_ge(s, I, 'level.recorded', sev - lvl - 1, 'a statement at least as severe as the current level is not recorded')
            return []
        it.require(s, I, 'front.after-publish', s.mem.get(self.msg) is g['head'], 'a message is written after it was published')
        it.require(s, I, 'level.recorded', g['npub'] == 1, 'a statement is recorded %d times' % g['npub'])
        it.require(s, I, 'front.eval-once', g['evals'] == (1 if self.nargs else 0), 'arguments are evaluated %d times' % g['evals'])
        g['phase'] = 'check'
        if g['site'] is None:
            return []           # already registered: covered by the other path
        return [(s, None, 'ret')]

    def level(self, it, s):
        r = it.region_of_global(self.singleton)
        off, size = self.level_off
        v = it.load(s, Ptr(r, K(off)), ir.ity(8 * size))
        return s.p.norm(v) if isinstance(v, Lin) else None

    def m_site(self, it, s, I, a):
        return [(s, Ptr(s.ghost['site']), 'ret')]

    def m_staged(self, it, s, I, a):
        return [(s, Ptr(self.msg, K(self.hdrsize)), 'ret')]

    def m_fmt(self, it, s, I, a):
        site = Ptr(s.ghost['site'])
        fo = self.infofields

        def cstr(nm):
            v = it.load(s, Ptr(site.r, K(fo[nm][0])), ir.PTR)
            return self.what(v) if isinstance(v, Ptr) else None
        it.require(s, I, 'front.site', cstr('formatString') == self.what(a[0]), 'registered format string differs')
        it.require(s, I, 'front.site', cstr('filename') == self.what(a[1]), 'registered file name differs')
        for nm, want in (('lineNum', self.line), ('severity', self.sev), ('numParams', self.nargs)):
            v = it.load(s, Ptr(site.r, K(fo[nm][0])), ir.ity(8 * fo[nm][1]))
            it.require(s, I, 'front.site', isinstance(v, Lin) and s.p.norm(v) == K(want), 'registered %s is %r instead of %d' % (nm, v, want))
        return [(s, None, 'ret')]

    def m_compressed(self, it, s, I, a):
        g = s.ghost
        args = g['pub'] - self.hdrsize
        ok = isinstance(a[0], Ptr) and a[0].r is self.msg
        it.require(s, I, 'args.consumed', ok and s.p.entails_eq(a[0].o - self.hdrsize - args),
                   'compression reads %r bytes of %r staged argument bytes' % (a[0].o - self.hdrsize if ok else a[0], s.p.norm(args)))
        ok = isinstance(a[1], Ptr) and a[1].r is self.out
        if it.require(s, I, 'args.out', ok, 'output position leaves the output buffer'):
            it.require_ge(s, I, 'args.bound', args.scale(2) - a[1].o, 'compressed arguments take more than twice their staged size')
            g['end'] = s.p.norm(a[1].o)
        return [(s, None, 'ret')]

    def m_eq(self, it, s, I, a):
        ok = same(it, s, a[0], a[1], 64)
        if not ok and isinstance(a[0], Lin) and isinstance(a[1], Lin):
            d = s.p.norm(a[0] - a[1])
            ok = d.is_const() and d.c % (1 << 64) == 0
        it.require(s, I, 'args.value', ok, '%s: decoded %r, logged %r' % (self.what(a[2]), a[0], a[1]))
        return [(s, None, 'ret')]

    def m_eqd(self, it, s, I, a):
        it.require(s, I, 'args.value', self.sameflt(it, s, a[0], a[1]), '%s: decoded %r, logged %r' % (self.what(a[2]), a[0], a[1]))
        return [(s, None, 'ret')]
    m_eql = m_eqd

    def sameflt(self, it, s, x, y):
        return x == y and not isinstance(x, Lin)

    def m_str(self, it, s, I, a):
        got, want, L, w, wh = a
        nm = self.what(wh)
        w = s.p.norm(w).c
        if not it.require(s, I, 'args.string', isinstance(got, Ptr) and got.r is self.out, '%s: string outside the output' % nm):
            return [(s, None, 'ret')]
        # an arbitrary character
        t = s.copy()
        k = it.sym(t, 'k', 0, 1 << 24)
        if t.p.assume(L.scale(w) - k - 1):
            x = it.load(t, Ptr(got.r, got.o + k), ir.ity(8))
            y = it.load(t, Ptr(want.r, want.o + k), ir.ity(8))
            it.require(t, I, 'args.string', same(it, t, x, y, 8), '%s: a character of the string differs (%r, %r)' % (nm, x, y))
        z = it.load(s, Ptr(got.r, s.p.norm(got.o + L.scale(w))), ir.ity(8 * w))
        it.require(s, I, 'args.string', isinstance(z, Lin) and s.p.norm(z) == K(0), '%s: the decoded string is not terminated at its length' % nm)
        return [(s, None, 'ret')]

    def m_done(self, it, s, I, a):
        g = s.ghost
        ok = isinstance(a[0], Ptr) and a[0].r is self.out and 'end' in g
        it.require(s, I, 'args.length', ok and s.p.entails_eq(a[0].o - g['end']),
                   'decoding the arguments takes %r bytes, compression wrote %r' % (a[0].o if ok else a[0], g.get('end')))
        self.finished = True
        return [(s, None, 'ret')]


    # ---- running
    def prepare(self):
        mod = self.mod
        names = list(mod.fns) + list(mod.decls) + list(mod.globals)
        sg = [n for n in mod.globals if re.search(r'RuntimeLogger16nanoLogSingletonE$', n)]
        f = mod.fields('RuntimeLogger')
        if len(sg) != 1 or 'currentLogLevel' not in f:
            raise AnalysisError('logger singleton or its level not found')
        self.singleton = sg[0]
        self.level_off = f['currentLogLevel'][:2]
        self.infofields = mod.fields('StaticLogInfo')
        self.infosize = max(o + z for o, z, _ in self.infofields.values())
        self.infosize = (self.infosize + 7) // 8 * 8
        ue = mod.fields('UncompressedEntry')
        self.hdr = [(n, ue[n][0], ue[n][1]) for n in ('fmtId', 'timestamp', 'entrySize')]
        self.hdrsize = ue['argData'][0]
        self.levels = (0, len(LEVELS) - 1)
        self.anchors = {}
        self.packs = self.contracts()
        if not any(x[0] == 'pack' for x in self.packs.values()) or not any(x[0] == 'unpack' for x in self.packs.values()):
            raise AnalysisError('pack/unpack not found')
        for key, pat, fn in (('reserve', r'StagingBuffer::reserveProducerSpace\(', self.m_reserve),
                             ('publish', r'StagingBuffer::finishReservation\(', self.m_publish),
                             ('register', r'RuntimeLogger::registerInvocationSite_internal\(', self.m_register),
                             ('ensure', r'RuntimeLogger::ensureStagingBufferAllocated\(', self.m_ensure)):
            hit = [n for n in list(mod.fns) + list(mod.decls) if re.search(pat, mod.demangle(n))]
            if not hit:
                raise AnalysisError('anchor not found: %s' % pat)
            for n in hit:
                self.anchors[n] = fn

    def run_one(self, n, meta):
        mod = self.mod
        sev, fmt, args, nargs = meta
        self.n, self.nargs, self.line, self.sev = n, nargs, 1000 + n, LEVELS.index(sev)
        it = self.interp()
        self.tlsr = self.tls(it)
        self.finished = False
        s = State()
        self.msg = Region('message', None, 'heap')
        self.out = Region('out', None, 'heap', 'undef')
        own = [g for g in mod.globals if re.match(r'_ZZ\d+w_%dE' % n, g)
               and not mod.global_init(g)[0] and mod.global_init(g)[2] is not None and mod.sizeof(mod.global_init(g)[2]) == 4]
        idcell = Ptr(it.region_of_global(own[0])) if len(own) == 1 else None
        s.ghost.update(open=None, site=None, packed=(), evals=0, nres=0, npub=0, tsc=(), idcell=idcell, phase='')
        lo, hi = self.levels
        it.store(s, Ptr(it.region_of_global(self.singleton), K(self.level_off[0])), it.sym(s, 'level', lo, hi), self.level_off[1])
        fn = mod.fns['w_%d' % n]
        a = [Ptr(self.out)]
        for k, (ty, _, _) in enumerate(fn.args[1:]):
            a.append(it.top(s, ty, 'a%d' % k))
        outs = it.run(fn, a, s)
        return it, outs

    def go(self, res, stmts, want):
        """run every statement; obligations of the wanted families are reported"""
        for n, meta in stmts:
            it, outs = self.run_one(n, meta)
            if not self.finished and not it.violations:
                raise AnalysisError('statement %d (%s): no path reaches the end' % (n, meta[1]))
            for v in it.violations:
                v['msg'] = 'statement "%s": %s' % (meta[1], v['msg'])
            it.violations = [v for v in it.violations if v['rule'].startswith(want)]
            it.oblig = {k: v for k, v in it.oblig.items() if k.startswith(want)}
            res.absorb(it)
            res.instances.setdefault('formats', set()).add(meta[1])
            res.count('statements')
            res.count('paths', len(outs))
            for u, k in it.unmodelled.items():
                res.count('unmodelled:' + u, k)

    def set_level(self, res):
        """setLogLevel: the resulting level is the requested one clamped to the valid range"""
        mod = self.mod
        top = len(LEVELS) - 1
        for which in (0, 1):
            it = self.interp()
            self.tlsr = self.tls(it)
            self.finished = False
            sing = it.region_of_global(self.singleton)

            def done(it, s, I, a):
                self.finished = True
                outs = it.as_s(s, a[1], 32)
                for s1, v in outs:
                    for s2, g in it.as_s(s1, a[2], 32):
                        for lo, hi, want in ((None, -1, K(0)), (0, top, v), (top + 1, None, K(top))):
                            x = s2.copy()
                            if (lo is None or x.p.assume(v - lo)) and (hi is None or x.p.assume(K(hi) - v)):
                                it.require(x, I, 'level.clamp', x.p.entails_eq(g - want),
                                           'setLogLevel(%s) leaves the level at %r' % (
                                               'a negative value' if lo is None else 'a value above the last level' if hi is None
                                               else 'a valid level', x.p.norm(g)))
                return []
            it.models['__sa_level'] = done
            s = State()
            s.ghost.update(open=None, site=None, packed=(), evals=0, nres=0, npub=0, tsc=(), idcell=None, phase='')
            it.store(s, Ptr(sing, K(self.level_off[0])), it.sym(s, 'level', *self.levels), self.level_off[1])
            it.run(mod.fns['w_set'], [it.sym(s, 'v', -(1 << 31), (1 << 31) - 1), K(which)], s)
            if not self.finished and not it.violations:
                raise AnalysisError('setLogLevel: no path reaches the end')
            it.violations = [v for v in it.violations if v['rule'].startswith('level.')]
            it.oblig = {k: v for k, v in it.oblig.items() if k.startswith('level.')}
            res.absorb(it)

    def level_writers(self, res):
        """nothing but setLogLevel and the constructor stores to the current level"""
        mod = self.mod
        writers = []
        for name, fn in mod.fns.items():
            d = mod.demangle(name)
            if d.startswith('w_') or re.search(r'RuntimeLogger::(RuntimeLogger|~RuntimeLogger)\(', d):
                continue
            for I in access.stores_to(mod, fn, 'RuntimeLogger', self.level_off[0]):
                writers.append((name, d, I))
        callers = access.callers(mod)

        def only_from_set(n, seen=()):
            d = mod.demangle(n)
            if re.search(r'\bRuntimeLogger::(setLogLevel|RuntimeLogger)\(', d):
                return True
            if n in seen:
                return True
            c = callers.get(n, ())
            return bool(c) and all(only_from_set(x, seen + (n,)) for x in c)
        for n, d, I in writers:
            res.require('level.writers', only_from_set(n), mod.loc(I), d,
                        'the current level is changed outside setLogLevel')
        res.floor('stores to the current level', len(writers), 1)
