"""C08  the encoder stays inside its buffer, encodes whole records and reports exactly what it encoded.

Every entry point of the encoder is interpreted on an arbitrary encoder state (position, capacity),
arbitrary staged messages and dictionary; loops are closed by widening, so any number of records."""
import re
from sa import build, ir, poly
from sa.absint import Interp, State, Ptr, Region, Lin, NULLR, AnalysisError, W
from sa.poly import K, var

HEAD = r'''
#define EXPOSE_PRIVATES
#include "Log.cc"
#include <cstddef>
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;
extern "C" {
void __sa_begin(char *pos, char *end, char *from, uint64_t nbytes, uint64_t events);
void __sa_done(long consumed, char *pos, uint64_t bytes, uint64_t events);
void __sa_extent(char *start, uint32_t len);
void __sa_dict(uint32_t bytes, char *pos, uint32_t at, uint32_t at0, uint32_t n);
void __sa_ck(int ok, char *pos);
void __sa_same(char *a, char *b);
}
static Encoder *mk(void *mem, char *buf, uint64_t cap, uint64_t w) {
    Encoder *e = new (mem) Encoder(buf, cap, true);
    e->writePos = buf + w;
    return e;
}
extern "C" void w_ck(char *buf, uint64_t cap, uint64_t w, bool dict) {
    char *p = buf + w;
    __sa_begin(p, buf + cap, nullptr, 0, 0);
    bool ok = insertCheckpoint(&p, buf + cap, dict);
    __sa_ck(ok, p);
}
extern "C" void w_ctor(void *mem, char *buf, uint64_t cap, bool skip, bool force) {
    __sa_begin(buf, buf + cap, nullptr, 0, 0);
    Encoder *e = new (mem) Encoder(buf, cap, skip, force);
    __sa_ck(e->writePos != buf, e->writePos);
    __sa_same(e->endOfBuffer, buf + cap);
    __sa_same(e->backing_buffer, buf);
}
'''
CPP = HEAD + r'''
extern "C" void w_encode(void *mem, char *buf, uint64_t cap, uint64_t w, char *from, uint64_t nbytes, uint32_t id, bool pass,
                         std::vector<StaticLogInfo> *dict, uint64_t *events) {
    Encoder *e = mk(mem, buf, cap, w);
    __sa_begin(buf + w, buf + cap, from, nbytes, *events);
    long r = e->encodeLogMsgs(from, nbytes, id, pass, *dict, events);
    __sa_done(r, e->writePos, e->getEncodedBytes(), *events);
    if (e->writePos != buf + w) {
        uint32_t len;
        memcpy(&len, buf + w + offsetof(BufferExtent, length), 4);
        __sa_extent(buf + w, len);
    }
    __sa_same(e->endOfBuffer, buf + cap);
    __sa_same(e->backing_buffer, buf);
}
extern "C" void w_dict(void *mem, char *buf, uint64_t cap, uint64_t w, uint32_t at, std::vector<StaticLogInfo> *dict) {
    Encoder *e = mk(mem, buf, cap, w);
    uint32_t at0 = at;
    __sa_begin(buf + w, buf + cap, nullptr, 0, 0);
    uint32_t r = e->encodeNewDictionaryEntries(at, *dict);
    __sa_dict(r, e->writePos, at, at0, (uint32_t) dict->size());
}
'''
PRE = HEAD + r'''
extern "C" void w_encode(void *mem, char *buf, uint64_t cap, uint64_t w, char *from, uint64_t nbytes, uint32_t id, bool pass,
                         std::vector<StaticLogInfo> *, uint64_t *events) {
    Encoder *e = mk(mem, buf, cap, w);
    __sa_begin(buf + w, buf + cap, from, nbytes, *events);
    long r = e->encodeLogMsgs(from, nbytes, id, pass, events);
    __sa_done(r, e->writePos, e->getEncodedBytes(), *events);
    if (e->writePos != buf + w) {
        uint32_t len;
        memcpy(&len, buf + w + offsetof(BufferExtent, length), 4);
        __sa_extent(buf + w, len);
    }
    __sa_same(e->endOfBuffer, buf + cap);
    __sa_same(e->backing_buffer, buf);
}
'''
STAGE = 1 << 20


class Enc:
    def __init__(self, mod, pre):
        self.mod, self.pre = mod, pre
        it = self.it = Interp(mod, unroll=2)
        it.loop_key = lambda it, s: ('w0' in s.ghost, 'c' in s.ghost, s.ghost.get('cnt') == K(0))
        it.ret_merge = it.loop_key
        it.ret_min = 64
        it.join_templates = self.templates
        it.on_store = self.on_store
        it.on_mem = self.on_mem
        it.on_load = self.on_load
        it.on_call = self.on_call
        it.max_strlen = 65533
        M = it.models
        M['__sa_begin'] = self.begin
        M['__sa_done'] = self.done
        M['__sa_extent'] = self.extent
        M['__sa_dict'] = self.dict
        M['__sa_ck'] = self.ck
        M['__sa_same'] = self.same
        M['__assert_fail'] = self.fail
        M['exit'] = lambda it, s, I, a: []
        M['abort'] = lambda it, s, I, a: []
        M['_ZN18GeneratedFunctions15writeDictionaryEPcS0_'] = self.wd
        self.packs = 0
        for n in list(mod.fns) + list(mod.decls):
            if 'throw_out_of_range' in n or 'throw_length' in n:
                M[n] = self.throw
            d = mod.demangle(n)
            m = re.search(r'\bBufferUtils::pack(<[^<>]*>)?\(char\*\*', d)
            if m and n in mod.fns:
                M[n] = self.pack
                self.packs += 1
            if d.startswith('std::vector<NanoLogInternal::StaticLogInfo'):
                if '::~vector' in d:
                    M[n] = lambda it, s, I, a: [(s, None, 'ret')]
                elif '::vector(std::vector' in d and d.endswith('const&)'):
                    M[n] = self.vcopy
        self.buf = Region('buf', None, 'heap', 'lazy')
        self.frm = Region('staged', None, 'heap', 'lazy')
        self.touched = 0

    # models
    def pack(self, it, s, I, a):
        """contract of BufferUtils::pack (shown by C09): 1..sizeof(T) bytes are written and skipped"""
        fn = self.mod.fns[I.x['callee'].v[1:]]
        size = max(self.mod.sizeof(t) for t, _, _ in fn.args[1:2])
        p = it.load(s, a[0], ir.PTR)
        k = it.sym(s, 'packed', 1, size)
        if isinstance(p, Ptr):
            self.write(s, I, p, k, 'packed value')
            self.drop(s, p, k, I)
            it.store(s, a[0], Ptr(p.r, s.p.norm(p.o + k)), 8, I)
        return [(s, it.sym(s, 'nibble', 0, 15), 'ret')]

    def vcopy(self, it, s, I, a):
        it.memcpy(s, a[0], a[1], K(24))
        return [(s, None, 'ret')]

    def throw(self, it, s, I, a):
        it.require(s, I, 'enc.dictionary-index', False, 'a dictionary entry is looked up with an index it does not have')
        return []

    def fail(self, it, s, I, a):
        it.require(s, I, 'enc.assert', False, 'an internal assertion can fail')
        return []

    def wd(self, it, s, I, a):
        g = s.ghost
        it.require(s, I, 'enc.dict-window', isinstance(a[1], Ptr) and a[1].r is self.buf and s.p.entails(self.cap - a[1].o)
                   and isinstance(a[0], Ptr) and a[0].r is self.buf and s.p.entails(a[0].o - g['w0']),
                   'the dictionary writer is given space outside the buffer')
        t = s.copy()
        n = it.sym(s, 'dictbytes', 0, 1 << 30)
        if not s.p.assume(a[1].o - a[0].o - n):
            return [(t, K(-1), 'ret')]
        it.havoc(s, self.buf, a[0].o, n, I)
        return [(t, K(-1), 'ret'), (s, n, 'ret')]

    def templates(self, s, env):
        g = s.ghost
        if 'cnt' in g:
            return [g['c'] - g['c0'] - g['cnt'].scale(16), self.cap - g['wlast'], g['avail'] - g['c']]
        return []

    # memory
    def cell(self, s, p, n):
        """'len' for the length field of the extent being written, 'off' if disjoint from it"""
        if 'c' not in s.ghost:
            return None
        d = p.o - s.ghost['w0']
        if s.p.entails_eq(d - 1) and s.p.entails_eq(n - 4):
            return 'len'
        if s.p.entails(d - 5) or s.p.entails(K(1) - d - n):
            return 'off'
        return None

    def drop(self, s, p, n, I):
        if self.cell(s, p, n) != 'off':
            self.it.havoc(s, p.r, p.o, n, I)

    def write(self, s, I, p, n, what):
        it = self.it
        if not isinstance(p, Ptr) or p.r is not self.buf or 'w0' not in s.ghost:
            return
        self.touched += 1
        it.require_ge(s, I, 'enc.in-bounds', p.o - s.ghost['w0'], '%s overwrites bytes encoded earlier' % what)
        it.require_ge(s, I, 'enc.in-bounds', self.cap - p.o - n, '%s past the end of the buffer' % what)

    def on_store(self, it, s, I, p, v, size):
        self.write(s, I, p, K(size), 'store')
        if p.r is self.frm:
            it.require(s, I, 'enc.readonly', False, 'the encoder modifies staged messages')
        if p.r is self.buf and self.cell(s, p, K(size)) == 'off':
            return [s]        # only the length field is read back
        return None

    def on_mem(self, it, s, I, kind, p, n, src):
        if kind == 'write':
            self.write(s, I, p, n, 'copy')

    def on_load(self, it, s, I, p, ty):
        if p.r is self.frm and 'c' in s.ghost and ty.k == 'int' and ty.a == 32:
            if s.p.entails_eq(p.o - s.ghost['c'] - 4):
                v = it.load(s, p, ty)
                # staged messages are whole (C01, C02)
                if not (s.p.assume(v - 16) and s.p.assume(K(STAGE) - v) and s.p.assume(s.ghost['avail'] - s.ghost['c'] - v)):
                    return []
                return [(s, v)]
        return None

    def on_call(self, it, s, I, name, a, f):
        if name is not None:
            return None
        g = s.ghost
        if 'c' not in g:
            return None
        if len(a) == 4:
            arg = it.load(s, a[2], ir.PTR)
            out = it.load(s, a[3], ir.PTR)
            entry_ok = isinstance(arg, Ptr) and arg.r is self.frm and s.p.entails_eq(arg.o - g['c'] - 16)
        elif len(a) == 2:
            arg, out = a
            entry_ok = isinstance(arg, Ptr) and arg.r is self.frm and s.p.entails_eq(arg.o - g['c'])
        else:
            return None
        it.require(s, I, 'enc.in-order', entry_ok, 'the message compressed is not the next one')
        if not (isinstance(out, Ptr) and out.r is self.buf and isinstance(arg, Ptr)):
            it.require(s, I, 'enc.in-bounds', False, 'arguments are compressed to somewhere outside the buffer')
            return []
        size = it.load(s, Ptr(self.frm, g['c'] + 4), ir.ity(32))
        s.p.assume(size - 16)
        s.p.assume(g['avail'] - g['c'] - size)
        n = size - 16
        it.require_ge(s, I, 'enc.space', self.cap - out.o - n.scale(2),
                      'arguments are compressed although their worst case (twice their size) does not fit')
        it.require(s, I, 'enc.contiguous', s.p.entails(out.o - g['wlast'] - 3) and s.p.entails(g['wlast'] + (22 if g['cnt'] == K(0) else 13) - out.o),
                   'the message does not follow the previous record')
        k = it.sym(s, 'k', 0, 2 * STAGE)
        if not s.p.assume(n.scale(2) - k):
            return []
        self.drop(s, out, k, I)
        g['c'] = s.p.norm(g['c'] + size)
        g['cnt'] = g['cnt'] + 1
        g['wlast'] = s.p.norm(out.o + k)
        if len(a) == 4:
            it.store(s, a[3], Ptr(self.buf, s.p.norm(out.o + k)), 8, I)
            return [(s, it.top(s, I.ty) if I.ty.k != 'void' else None, 'ret')]
        return [(s, k, 'ret')]

    # events
    def begin(self, it, s, I, a):
        g = s.ghost
        g['w0'] = s.p.norm(a[0].o)
        self.cap = s.p.norm(a[1].o)
        if isinstance(a[2], Ptr) and a[2].r is self.frm:
            g['c'] = s.p.norm(a[2].o)
            g['c0'] = g['c']
            g['nbytes'] = a[3]
            g['cnt'] = K(0)
            g['ev0'] = a[4]
            g['wlast'] = g['w0']
        return [(s, None, 'ret')]

    def done(self, it, s, I, a):
        g = s.ghost
        r, pos, nb, ev = a
        out = []
        for s2, r in it.as_s(s, r, 64):
            g = s2.ghost
            used = g['c'] - g['c0']
            it.require(s2, I, 'enc.consumed', s2.p.entails_eq(r - used),
                       'reports %r bytes consumed, %r bytes were encoded' % (s2.p.norm(r), s2.p.norm(used)))
            it.require(s2, I, 'enc.events', s2.p.entails_eq(ev - g['ev0'] - g['cnt']), 'the message count is wrong: %r vs %r + %r' % (ev, g['ev0'], g['cnt']))
            ok = isinstance(pos, Ptr) and pos.r is self.buf
            it.require(s2, I, 'enc.byte-count', ok and s2.p.entails_eq(nb - pos.o), 'encoded byte count is wrong')
            if ok:
                # nothing after the last complete record, apart from the extent header
                d = pos.o - g['wlast']
                t = s2.copy()
                if t.p.assume(g['cnt'] - 1):
                    it.require(t, I, 'enc.whole-records', t.p.entails_eq(d), 'bytes of an incomplete record are left behind')
                t = s2.copy()
                if t.p.assume(-g['cnt']):
                    it.require(t, I, 'enc.whole-records', t.p.entails(K(9) - d) and t.p.entails(d),
                               'bytes of an incomplete record are left behind')
                it.require_ge(s2, I, 'enc.in-bounds', self.cap - pos.o, 'position past the end of the buffer')
            out.append((s2, None, 'ret'))
        return out

    def extent(self, it, s, I, a):
        pos = s.ghost['wlast']
        w0 = s.ghost['w0']
        n = s.ghost['cnt']
        t = s.copy()
        if t.p.assume(n - 1):
            it.require(t, I, 'enc.extent-length', isinstance(a[1], Lin) and t.p.entails_eq(a[1] - (pos - w0)),
                       'extent length %r, bytes written %r' % (a[1], t.p.norm(pos - w0)))
        return [(s, None, 'ret')]

    def dict(self, it, s, I, a):
        r, pos, at, at0, n = a
        w0 = s.ghost['w0']
        ok = isinstance(pos, Ptr) and pos.r is self.buf
        it.require(s, I, 'enc.byte-count', ok and s.p.entails_eq(r - (pos.o - w0)), 'dictionary byte count is wrong')
        if ok:
            it.require_ge(s, I, 'enc.in-bounds', self.cap - pos.o, 'position past the end of the buffer')
        it.require_ge(s, I, 'enc.dict-position', at - at0, 'dictionary position moves backwards')
        it.require_ge(s, I, 'enc.dict-position', n - at, 'dictionary position passes the end of the dictionary')
        return [(s, None, 'ret')]

    def ck(self, it, s, I, a):
        pos, w0 = a[1], s.ghost['w0']
        ok = isinstance(pos, Ptr) and pos.r is self.buf
        it.require(s, I, 'enc.in-bounds', ok and s.p.entails(self.cap - pos.o), 'position past the end of the buffer')
        if ok:
            for t, b in it.split_bool(s.copy(), a[0]):
                if not b:
                    it.require(t, I, 'enc.whole-records', t.p.entails_eq(pos.o - w0), 'a refused record leaves bytes behind')
        return [(s, None, 'ret')]

    def same(self, it, s, I, a):
        it.require(s, I, 'enc.state', isinstance(a[0], Ptr) and a[0].r is a[1].r and s.p.entails_eq(a[0].o - a[1].o),
                   'the encoder lost track of its buffer')
        return [(s, None, 'ret')]

    def start(self):
        it = self.it
        s = State()
        cap = it.sym(s, "cap", 0, (1 << 30) - 1)
        w = it.sym(s, 'w', 0, 1 << 30)
        poly.PROTECT.update(cap.syms() + w.syms())
        s.p.assume(cap - w)
        return s, cap, w

    def vector(self, s):
        it = self.it
        v = Region('dict', 24, 'heap')
        d = Region('dictdata', None, 'heap')
        n = it.sym(s, 'entries', 0, 1 << 24)
        sz = self.mod.types.get('%struct.NanoLogInternal::StaticLogInfo') or self.mod.types.get('%"struct.NanoLogInternal::StaticLogInfo"')
        size = None
        for k in self.mod.types:
            if 'StaticLogInfo' in k and 'struct.NanoLogInternal::StaticLogInfo' in k:
                size = self.mod.sizeof(ir.Ty('named', k))
        if not size:
            raise AnalysisError('StaticLogInfo type not found')
        it.store(s, Ptr(v, K(0)), Ptr(d), 8)
        it.store(s, Ptr(v, K(8)), Ptr(d, n.scale(size)), 8)
        it.store(s, Ptr(v, K(16)), Ptr(d, n.scale(size)), 8)
        return Ptr(v), n


def run(res, tier):
    res.rules += ['every store lies between the position at entry and the end of the buffer',
                  'arguments are compressed only if twice their staged size fits',
                  'return value = staged bytes of the messages encoded; event count = messages encoded; extent length = bytes written',
                  'a refused record leaves the position unchanged']
    res.assumptions += ['staged messages are whole (C01, C02) and their size field is at least the header size',
                        'a compression function writes at most twice the staged argument bytes (C12 for the C++17 front end)',
                        'buffers below 1 GiB, file names and format strings below 64 KiB']
    for pre in (False, True):
        for asserts in (False, True):
            mod = build.compile_ir(None, 'pre' if pre else 'cpp17', asserts, text=PRE if pre else CPP, name='enc.cc')
            n0 = 0
            # messages
            E = Enc(mod, pre)
            it = E.it
            s, cap, w = E.start()
            nb = it.sym(s, 'nbytes', 0, STAGE)
            av = it.sym(s, 'avail', 0, STAGE)
            s.p.assume(av - nb)
            s.ghost['avail'] = av
            poly.PROTECT.update(nb.syms() + av.syms())
            ev = Region('events', 8, 'heap')
            it.store(s, Ptr(ev), it.sym(s, 'ev', 0, 1 << 60), 8)
            vec, _ = E.vector(s)
            go(res, E, 'w_encode', s, [Ptr(Region('enc', None, 'heap', 'undef')), Ptr(E.buf), cap, w, Ptr(E.frm), nb,
                                       it.top_int(s, 32, 'id'), it.top_int(s, 1, 'pass'), vec, Ptr(ev)])
            if not pre:
                E = Enc(mod, pre)
                it = E.it
                s, cap, w = E.start()
                vec, n = E.vector(s)
                at = it.sym(s, 'at', 0, 1 << 24)
                s.p.assume(n - at)
                go(res, E, 'w_dict', s, [Ptr(Region('enc', None, 'heap', 'undef')), Ptr(E.buf), cap, w, at, vec])
            for skip in (0, 1):
                for force in (0, 1):
                    if force and not pre:
                        continue
                    E = Enc(mod, pre)
                    it = E.it
                    s, cap, w = E.start()
                    go(res, E, 'w_ctor', s, [Ptr(Region('enc', None, 'heap', 'undef')), Ptr(E.buf), cap, K(skip), K(force)])
            for d in (0, 1):
                E = Enc(mod, pre)
                s, cap, w = E.start()
                go(res, E, 'w_ck', s, [Ptr(E.buf), cap, w, K(d)])


def go(res, E, fn, s, args):
    outs = E.it.run(E.mod.fns[fn], args, s)
    if not outs and not E.it.violations:
        raise AnalysisError('%s: no path reaches the end' % fn)
    res.absorb(E.it)
    res.count('paths', len(outs))
    res.count('buffer_writes', E.touched)
    for u, k in E.it.unmodelled.items():
        res.count('unmodelled:' + u, k)


LEVEL = 'proof'
EXPLAIN = ('the encoder is interpreted on an arbitrary state; each store into the output buffer and each return is an '
           'obligation discharged over convex polyhedra, loops closed by widening')
