"""C09  pack/unpack round trip, for every value of every supported type.

A witness program packs a fully symbolic value and unpacks it again; the abstract
interpreter carries the value as a linear expression over its (unsigned) bit
pattern, memory as byte-exact writes, and splits on the comparisons the code makes.
"""
from sa import build, ir
from sa.absint import Interp, State, Ptr, Region, Opq, AnalysisError, UNDEF
from sa.poly import K, var, Lin

INTS = [('u8', 'uint8_t', 8), ('u16', 'uint16_t', 16), ('u32', 'uint32_t', 32), ('u64', 'uint64_t', 64),
        ('i32', 'int32_t', 32), ('i64', 'int64_t', 64), ('ll', 'long long int', 64),
        ('ull', 'unsigned long long int', 64), ('i16', 'int16_t', 16), ('i8', 'int8_t', 8),
        ('ch', 'char', 8), ('wc', 'wchar_t', 32), ('sz', 'size_t', 64), ('im', 'intmax_t', 64),
        ('pd', 'ptrdiff_t', 64), ('c32', 'char32_t', 32), ('c16', 'char16_t', 16)]
FLTS = [('f', 'float', 4), ('d', 'double', 8), ('ld', 'long double', 16)]
PTRS = [('p', 'const void *'), ('pi', 'int *')]

HEAD = r'''
#include "Packer.h"
#include <wchar.h>
using namespace BufferUtils;
extern "C" void __sa_packed(const char *start, const char *end, int code, uint64_t size);
extern "C" void __sa_read(const char *pos, const char *want);
extern "C" void __sa_done(const char *pos);
template <typename T> void check(T got, T want);
'''


def rt(tag, ty):
    return r'''
extern "C" void __sa_eq_%(t)s(%(ty)s got, %(ty)s want);
extern "C" void rt_%(t)s(char *buf, %(ty)s v) {
    char *p = buf;
    int code = pack(&p, v);
    __sa_packed(buf, p, code, sizeof(%(ty)s));
    TwoNibbles nb; nb.first = 0; nb.second = 0;
    nb.second = code;
    const char *q = buf;
    %(ty)s r = unpack<%(ty)s>(&q, nb.second);
    __sa_read(q, p);
    __sa_eq_%(t)s(r, v);
    nb.first = code; nb.second = 0;
    q = buf;
    r = unpack<%(ty)s>(&q, nb.first);
    __sa_read(q, p);
    __sa_eq_%(t)s(r, v);
}
''' % dict(t=tag, ty=ty)


def cross(n, src, dst):
    """a value logged with one type and printed with another"""
    return r'''
extern "C" void cr_%(n)d(char *buf, %(s)s v) {
    char *p = buf;
    int code = pack(&p, v);
    __sa_packed(buf, p, code, sizeof(%(s)s));
    TwoNibbles nb; nb.first = code; nb.second = 0;
    const char *q = buf;
    %(t)s r = unpack<%(t)s>(&q, nb.first);
    __sa_read(q, p);
    __sa_eq_i64((int64_t)r, (int64_t)(%(t)s)v);
}
''' % dict(n=n, s=src, t=dst)


CROSS = [('char', 'int'), ('signed char', 'int'), ('short', 'int'), ('unsigned char', 'unsigned int'), ('bool', 'int'), ('bool', 'bool'),
         ('int', 'char'), ('int', 'signed char'), ('int', 'short'), ('unsigned char', 'int'), ('unsigned short', 'int'),
         ('int', 'unsigned int'), ('unsigned int', 'int'), ('int', 'wint_t'), ('wchar_t', 'wint_t'), ('long', 'unsigned long'),
         ('unsigned long', 'long'), ('long', 'long long'), ('int', 'unsigned char'), ('int', 'unsigned short')]
CW = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'bool': 1, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
      'wchar_t': 32, 'long': 64, 'unsigned long': 64}


def stream(n, tys):
    """n values packed behind a nibble block, read back through Nibbler"""
    args = ', '.join('%s a%d' % (x[1], i) for i, x in enumerate(tys))
    pk = ''.join('    nb[%d].%s = pack(&p, a%d); __sa_done(p);\n' % (i // 2, 'second' if i & 1 else 'first', i)
                 for i in range(len(tys)))
    rd = ''
    for i, x in enumerate(tys):
        t, ty = (x[3], x[2]) if len(x) > 2 else x     # a float is printed (and read back) as a double
        rd += '    { %s r = nib.getNext<%s>(); __sa_eq_%s(r, (%s)a%d); }\n' % (ty, ty, t, ty, i)
    return r'''
extern "C" void st_%d(char *buf%s) {
    TwoNibbles *nb = reinterpret_cast<TwoNibbles *>(buf);
    char *p = buf + %d;
%s    Nibbler nib(buf, %d);
%s    __sa_read(nib.getEndOfPackedArguments(), p);
}
''' % (n, (', ' + args) if args else '', (len(tys) + 1) // 2, pk, len(tys), rd)


STREAMS = [
    [],
    [('i32', 'int32_t')],
    [('u64', 'uint64_t'), ('d', 'double')],
    [('i64', 'int64_t'), ('ld', 'long double'), ('u32', 'uint32_t')],
    [('i32', 'int32_t'), ('p', 'const void *'), ('ld', 'long double'), ('i32', 'int32_t')],
    [('f', 'float', 'double', 'd'), ('i32', 'int32_t'), ('d', 'double'), ('ld', 'long double'), ('u8', 'uint8_t')],
]

SIZES = r'''
extern "C" void sz(const TwoNibbles *nb, uint32_t n, uint32_t want) { }
extern "C" uint32_t gs(const TwoNibbles *nb, uint32_t n) { return getSizeOfPackedValues(nb, n); }
'''


def width(c):
    return 16 if c == 0 else (c if c <= 8 else c - 8)


def run(res, tier):
    res.rules += ['round trip: unpack(pack(v)) is v for every bit pattern',
                  'length: unpack consumes exactly what pack produced, 1..sizeof(T) bytes',
                  'descriptor: the code survives storage in four bits (0 standing for 16)',
                  'stream: a reader over n packed values returns them in order and ends at the last byte',
                  'size: computed size of a nibble block equals the sum of the widths']
    res.assumptions += ['little-endian x86-64 data layout (taken from the module data layout)',
                        'floating point values are opaque bit patterns; equality means same bits']
    text = HEAD
    for t, ty, _ in INTS:
        text += rt(t, ty)
    for t, ty, _ in FLTS:
        text += rt(t, ty)
    for t, ty in PTRS:
        text += r'''
extern "C" void __sa_eq_%(t)s(%(ty)s got, %(ty)s want);
extern "C" void rt_%(t)s(char *buf, uint64_t v) {
    char *p = buf;
    int code = pack(&p, reinterpret_cast<%(ty)s>(v));
    __sa_packed(buf, p, code, 8);
    TwoNibbles nb; nb.first = code; nb.second = code;
    const char *q = buf;
    uint64_t r = unpack<uint64_t>(&q, nb.first);
    __sa_read(q, p);
    __sa_eq_u64(r, v);
}
''' % dict(t=t, ty=ty)
    for i, (a, b) in enumerate(CROSS):
        text += cross(i, a, b)
    for i, tys in enumerate(STREAMS):
        text += stream(i, tys)
    text += SIZES
    mod = build.compile_ir(None, 'cpp17', False, text=text, name='pack.cc')
    moda = build.compile_ir(None, 'cpp17', True, text=text, name='pack_a.cc')
    for m, runs in ((mod, ('rt', 'st', 'sz')), (moda, ('st',))):
        if 'rt' in runs:
            for t, ty, w in INTS:
                one(res, m, 'rt_' + t, [w])
            for t, ty, w in FLTS:
                one(res, m, 'rt_' + t, [ty])
            for t, ty in PTRS:
                one(res, m, 'rt_' + t, [64])
            for i, (a, b) in enumerate(CROSS):
                one(res, m, 'cr_%d' % i, [CW[a]])
        if 'st' in runs:
            W = {t: w for t, _, w in INTS}
            for i, tys in enumerate(STREAMS):
                if tier == 'quick' and m is moda and i not in (2, 3):
                    continue
                one(res, m, 'st_%d' % i, [W.get(x[0], x[1]) for x in tys])
        if 'sz' in runs:
            sizes(res, m, 4 if tier == 'quick' else 6)
    res.floor('obligations', sum(a for a, _ in res.oblig.values()), 100)


def mk(it, s, spec):
    if isinstance(spec, int):
        return it.top_int(s, spec, 'v')
    if '*' in spec:
        # an address is just a 64-bit pattern here
        return it.top_int(s, 64, 'ptr')
    return Opq(spec)


def same(it, s, a, b, w=64):
    a, b = it.coerce(s, a, ir.ity(w)), it.coerce(s, b, ir.ity(w))
    if isinstance(a, Lin) and isinstance(b, Lin):
        e = s.p.norm(a - b)
        if e.is_const():
            return e.c % (1 << w) == 0
        return s.p.entails_eq(e) or s.p.entails_eq(it.mod(s, e, w))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r is b.r and s.p.entails_eq(a.o - b.o)
    return a is b


def one(res, mod, fn, specs):
    it = Interp(mod, unroll=12)
    s = State()
    buf = Region('buf', 4096, 'heap', 'undef')
    end = {}

    def packed(it, s, I, a):
        st, e, code, size = a
        ok = isinstance(e, Ptr) and e.r is buf
        if not it.require(s, I, 'pack.position', ok, 'pack leaves the output position outside the buffer'):
            return []
        n = s.p.norm(e.o)
        it.require_ge(s, I, 'pack.length', n - 1, 'a packed value takes no byte')
        it.require_ge(s, I, 'pack.length', s.p.norm(size) - n, 'a packed value takes more bytes than its type')
        return [(s, None, 'ret')]

    def read(it, s, I, a):
        ok = isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].r is a[1].r and \
            s.p.entails_eq(a[0].o - a[1].o)
        it.require(s, I, 'pack.consumed', ok,
                   'unpacking does not consume exactly the bytes that packing produced: %r vs %r' % (a[0], a[1]))
        return [(s, None, 'ret')]

    def eq(it, s, I, a):
        w = 64
        if I.ops[0].ty.k == 'int':
            w = I.ops[0].ty.a
        ok = same(it, s, a[0], a[1], w)
        d = ''
        if isinstance(a[1], Lin):
            d = ' (value in %s..%s)' % s.p.bounds(a[1])
        tainted = isinstance(a[0], Lin) and it.is_tainted(s, a[0])
        it.require(s, I, 'pack.roundtrip', ok, 'unpack does not return the packed value%s: got %r for %r' % (
            d, a[0], a[1]), tainted)
        return [(s, None, 'ret')]

    def m_assert(it, s, I, a):
        it.require(s, I, 'pack.assert', False, 'an assertion of the packer can fail')
        return []
    it.models['__sa_packed'] = packed
    it.models['__sa_read'] = read
    it.models['__sa_done'] = lambda it, s, I, a: [(s, None, 'ret')]
    it.models['__assert_fail'] = m_assert
    it.prefix_models.insert(0, ('__sa_eq_', eq))
    args = [Ptr(buf)] + [mk(it, s, x) for x in specs]
    outs = it.run(mod.fns[fn], args, s)
    if not outs and not it.violations:
        raise AnalysisError('%s: no path reaches the end' % fn)
    res.absorb(it)
    res.count('witness_paths', len(outs))


def sizes(res, mod, N):
    import itertools
    cls = [(0, 0), (1, 8), (9, 15)]
    for n in range(N + 1):
        for combo in itertools.product(cls, repeat=n):
            if not size_case(res, mod, combo, False):
                # not decided on the class: refine the partition to single nibbles
                k = 0
                for vals in itertools.product(*[range(lo, hi + 1) for lo, hi in combo]):
                    size_case(res, mod, [(v, v) for v in vals], True)
                    k += 1
                    if k > 300:
                        break


def size_case(res, mod, combo, final):
    n = len(combo)
    it = Interp(mod, unroll=20)
    s = State()
    nb = Region('nb', 64, 'heap', 'undef')
    nibs = [it.sym(s, 'n%d' % i, lo, hi) if lo != hi else K(lo) for i, (lo, hi) in enumerate(combo)]
    pad = nibs + ([it.sym(s, 'pad', 0, 15)] if n & 1 else [])
    for k in range(len(pad) // 2):
        it.store(s, Ptr(nb, K(k)), pad[2 * k] + pad[2 * k + 1].scale(16), 1)
    fn = mod.fns['gs']
    I = list(fn.instrs())[-1]
    want = K(0)
    for x, (lo, hi) in zip(nibs, combo):
        want = want + (16 if hi == 0 else (x if hi <= 8 else x - 8))
    ok = True
    outs = it.run(fn, [Ptr(nb), K(n)], s)
    for t, v, k in outs:
        good = isinstance(v, Lin) and (t.p.entails_eq(v - want) or t.p.entails_eq(it.mod(t, v - want, 32)))
        if good or final:
            it.require(t, I, 'pack.size', good,
                       'the size computed for a block of %d values with nibbles %s is not the sum of their widths' % (n, combo))
        ok = ok and good
    if ok or final:
        res.absorb(it)
    return ok


LEVEL = 'proof'
EXPLAIN = ('abstract interpretation of the packer on symbolic values: every value of every supported type is covered '
           'by the paths of the witness functions')
