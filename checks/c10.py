"""C10  log headers, extents, dictionary fragments and checkpoints decode to what was encoded.

Witness programs run the real encoder on symbolic fields and the real decoder on the bytes it
produced; the abstract interpreter carries both sides symbolically."""
from sa import build, ir, filemodel
from sa.absint import Interp, State, Ptr, Region, Opq, Cond, NULLR, AnalysisError
from sa.poly import K, Lin, var
from checks.c09 import same

WITNESS = r'''
#define EXPOSE_PRIVATES
#include "Log.cc"
#include <cstddef>
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;
typedef Decoder::BufferFragment BF;
extern "C" {
void __sa_eq(uint64_t got, uint64_t want, const char *what);
void __sa_true(int v, const char *what);
void __sa_pos(const char *got, const char *want, const char *what);
void __sa_len(const char *start, const char *end, uint64_t lo, uint64_t hi, const char *what);
void __sa_bytes(const void *got, const void *want, uint64_t n, const char *what);
FILE *__sa_file(const char *start, const char *end);
void __sa_end(FILE *f, const char *what);
}
extern "C" void w_hdr(char *buf, uint32_t id, uint64_t ts, uint64_t last) {
    UncompressedEntry e; e.fmtId = id; e.entrySize = sizeof(e); e.timestamp = ts;
    char *p = buf;
    compressLogHeader(&e, &p, last);
    __sa_len(buf, p, 3, 13, "entry header");
    __sa_eq(peekEntryType(buf), EntryType::LOG_MSGS_OR_DIC, "entry tag of a message");
    const char *q = buf; uint32_t id2 = 0; uint64_t ts2 = 0;
    bool ok = decompressLogHeader(&q, last, id2, ts2);
    __sa_true(ok, "an encoded header is accepted");
    __sa_pos(q, p, "entry header: bytes consumed");
    __sa_eq(id2, id, "entry header: log id");
    __sa_eq(ts2, ts, "entry header: timestamp");
}
extern "C" void w_extent(char *buf, uint64_t cap, uint32_t id, bool pass, BF *bf) {
    Encoder enc(buf, cap, true);
    if (!enc.encodeBufferExtentStart(id, pass)) {
        __sa_true(enc.writePos == buf, "a refused extent leaves nothing behind");
        __sa_true(cap < 9, "an extent that fits is accepted");
        return;
    }
    __sa_len(buf, enc.writePos, 5, 9, "extent header");
    __sa_eq(peekEntryType(buf), EntryType::BUFFER_EXTENT, "entry tag of an extent");
    FILE *f = __sa_file(buf, enc.writePos);
    __sa_eq(peekEntryType(f), EntryType::BUFFER_EXTENT, "entry tag of an extent in a file");
    bool wrap = !pass;
    __sa_true(bf->readBufferExtent(f, &wrap), "an encoded extent is accepted");
    __sa_eq(wrap, pass, "extent: new pass flag");
    __sa_eq(bf->runtimeId, id, "extent: buffer id");
    __sa_true(!bf->hasNext(), "an empty extent has no message");
    __sa_end(f, "extent: bytes consumed");
}
static void none(int, const ParamType *, char **, char **) { }
struct NoneMeta { FormatMetadata fm; char fn[2]; PrintFragment pf; char s[2]; } __attribute__((packed));
extern "C" void w_msgs(char *buf, char *from, uint32_t id, bool pass, BF *bf, int n, uint64_t last_) {
    std::vector<StaticLogInfo> dict;
    StaticLogInfo li(none, "f", 1, 1, "x", 0, 0, nullptr);
    dict.push_back(li);
    dict.push_back(li);
    UncompressedEntry *e[3];
    for (int i = 0; i < n; ++i) {
        e[i] = reinterpret_cast<UncompressedEntry *>(from + 16 * i);
        e[i]->entrySize = sizeof(UncompressedEntry);
    }
    Encoder enc(buf, 4096, true);
    uint64_t events = 5;
    long used = enc.encodeLogMsgs(from, n * sizeof(UncompressedEntry), id, pass, dict, &events);
    __sa_eq(used, n * sizeof(UncompressedEntry), "all messages are consumed");
    __sa_eq(events, 5 + n, "number of messages encoded");
    __sa_eq(enc.getEncodedBytes(), enc.writePos - buf, "encoded byte count");
    NoneMeta m; memset(&m, 0, sizeof(m));
    m.fm.numNibbles = 0; m.fm.numPrintFragments = 1; m.fm.logLevel = 1; m.fm.filenameLength = 2;
    m.pf.argType = FormatType::NONE; m.pf.hasDynamicWidth = m.pf.hasDynamicPrecision = false; m.pf.fragmentLength = 2;
    std::vector<void *> meta;
    meta.push_back(&m);
    meta.push_back(&m);
    FILE *f = __sa_file(buf, enc.writePos);
    bool wrap = !pass;
    __sa_true(bf->readBufferExtent(f, &wrap), "an encoded extent is accepted");
    __sa_end(f, "extent: bytes consumed");
    __sa_eq(bf->runtimeId, id, "extent: buffer id");
    __sa_eq(wrap, pass, "extent: new pass flag");
    uint64_t done = 0;
    Checkpoint cp;
    LogMessage msg;
    for (int i = 0; i < n; ++i) {
        __sa_true(bf->hasNext(), "an encoded message is offered for decoding");
        __sa_eq(bf->getNextLogTimestamp(), e[i]->timestamp, "message timestamp");
        __sa_true(bf->decompressNextLogStatement(nullptr, done, msg, cp, meta), "an encoded message is decoded");
        __sa_eq(msg.getLogId(), e[i]->fmtId, "message log id");
        __sa_eq(msg.getTimestamp(), e[i]->timestamp, "message timestamp");
        __sa_eq(done, i + 1, "number of messages decoded");
    }
    __sa_true(!bf->hasNext(), "no message is invented");
}
extern "C" void w_two(char *buf, char *from, uint32_t id0, uint32_t id1, BF *bf) {
    std::vector<StaticLogInfo> dict;
    StaticLogInfo li(none, "f", 1, 1, "x", 0, 0, nullptr);
    dict.push_back(li);
    NoneMeta m; memset(&m, 0, sizeof(m));
    m.fm.numPrintFragments = 1; m.fm.logLevel = 1; m.fm.filenameLength = 2;
    m.pf.argType = FormatType::NONE; m.pf.fragmentLength = 2;
    std::vector<void *> meta;
    meta.push_back(&m);
    UncompressedEntry *e = reinterpret_cast<UncompressedEntry *>(from);
    e->entrySize = sizeof(UncompressedEntry);
    Encoder enc(buf, 4096, true);
    uint64_t events = 0;
    long used = enc.encodeLogMsgs(from, sizeof(UncompressedEntry), id0, true, dict, &events);
    used += enc.encodeLogMsgs(from, sizeof(UncompressedEntry), id1, false, dict, &events);
    __sa_eq(used, 2 * sizeof(UncompressedEntry), "all messages are consumed");
    __sa_eq(events, 2, "number of messages encoded");
    FILE *f = __sa_file(buf, enc.writePos);
    uint64_t done = 0;
    Checkpoint cp;
    LogMessage msg;
    for (int i = 0; i < 2; ++i) {
        bool wrap = i;
        __sa_true(bf->readBufferExtent(f, &wrap), "an encoded extent is accepted");
        __sa_eq(bf->runtimeId, i ? id1 : id0, "extent: buffer id");
        __sa_eq(wrap, !i, "extent: new pass flag");
        __sa_true(bf->hasNext(), "an encoded message is offered for decoding");
        __sa_true(bf->decompressNextLogStatement(nullptr, done, msg, cp, meta), "an encoded message is decoded");
        __sa_eq(msg.getLogId(), e->fmtId, "message log id");
        __sa_eq(msg.getTimestamp(), e->timestamp, "message timestamp");
        __sa_true(!bf->hasNext(), "no message is invented");
    }
    __sa_end(f, "extent: bytes consumed");
    char *old = nullptr; size_t len = 0, size = 0;
    enc.swapBuffer(from, 16, &old, &len, &size);
    __sa_pos(old, buf, "swapBuffer: buffer returned");
    __sa_eq(size, 4096, "swapBuffer: capacity returned");
    __sa_end2(f, len, "swapBuffer: bytes returned");
    __sa_pos(enc.writePos, from, "swapBuffer: new position");
    __sa_pos(enc.endOfBuffer, from + 16, "swapBuffer: new limit");
    __sa_eq(enc.getEncodedBytes(), 0, "swapBuffer: new buffer is empty");
}
extern "C" void w_checkpoint(char *buf, uint64_t cap) {
    char *p = buf;
    if (!insertCheckpoint(&p, buf + cap, false)) {
        __sa_true(p == buf, "a refused checkpoint leaves nothing behind");
        __sa_true(cap < sizeof(Checkpoint), "a checkpoint that fits is accepted");
        return;
    }
    __sa_len(buf, p, sizeof(Checkpoint), sizeof(Checkpoint), "checkpoint");
    __sa_eq(peekEntryType(buf), EntryType::CHECKPOINT, "entry tag of a checkpoint");
    FILE *f = __sa_file(buf, p);
    __sa_eq(peekEntryType(f), EntryType::CHECKPOINT, "entry tag of a checkpoint in a file");
    Checkpoint cp;
    __sa_true(readCheckpoint(cp, f), "an encoded checkpoint is accepted");
    Checkpoint *c = reinterpret_cast<Checkpoint *>(buf);
    __sa_eq(cp.entryType, EntryType::CHECKPOINT, "checkpoint: tag");
    __sa_eq(cp.newMetadataBytes, 0, "checkpoint: dictionary bytes");
    __sa_eq(cp.totalMetadataEntries, 0, "checkpoint: dictionary entries");
    __sa_clock(cp.rdtsc, cp.unixTime, cp.cyclesPerSecond);
    __sa_bytes((char *) &cp, (char *) c, sizeof(Checkpoint), "checkpoint: fields");
    __sa_end(f, "checkpoint: bytes consumed");
}
extern "C" void w_dict(char *buf, uint64_t cap, uint32_t pos, const char *f0, const char *s0, const char *f1, const char *s1,
                       uint32_t l0, uint32_t l1, uint8_t v0, uint8_t v1, Decoder *d, int already) {
    std::vector<StaticLogInfo> all;
    if (already) all.push_back(StaticLogInfo(none, "skip", 9, 1, "skip", 0, 0, nullptr));
    all.push_back(StaticLogInfo(none, f0, l0, v0, s0, 0, 0, nullptr));
    all.push_back(StaticLogInfo(none, f1, l1, v1, s1, 0, 0, nullptr));
    Encoder enc(buf, cap, true);
    uint32_t at = already;
    uint32_t n = enc.encodeNewDictionaryEntries(at, all);
    __sa_eq(n, enc.writePos - buf, "dictionary: byte count");
    if (n == 0) { __sa_eq(at, already, "dictionary: nothing encoded, nothing counted"); return; }
    __sa_eq(peekEntryType(buf), EntryType::LOG_MSGS_OR_DIC, "entry tag of a dictionary fragment");
    FILE *f = __sa_file(buf, enc.writePos);
    __sa_dict_begin(at - already);
    __sa_true(d->readDictionaryFragment(f), "an encoded dictionary fragment is accepted");
    __sa_end(f, "dictionary: bytes consumed");
    __sa_dict_end();
}
'''
WITNESS = WITNESS.replace('extern "C" {\n', 'extern "C" {\nvoid __sa_clock(uint64_t r, uint64_t t, double f); void __sa_end2(FILE *f, uint64_t n, const char *what); void __sa_dict_begin(uint32_t n); void __sa_dict_end();\n', 1)

PRE = r'''
#define EXPOSE_PRIVATES
#include "Log.cc"
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;
extern "C" {
void __sa_eq(uint64_t got, uint64_t want, const char *what);
void __sa_true(int v, const char *what);
void __sa_pos(const char *got, const char *want, const char *what);
void __sa_len(const char *start, const char *end, uint64_t lo, uint64_t hi, const char *what);
FILE *__sa_file(const char *start, const char *end);
void __sa_end(FILE *f, const char *what);
}
extern "C" void w_checkpoint_dict(char *buf, uint64_t cap) {
    char *p = buf;
    if (!insertCheckpoint(&p, buf + cap, true)) {
        __sa_true(p == buf, "a refused checkpoint leaves nothing behind");
        return;
    }
    Checkpoint *c = reinterpret_cast<Checkpoint *>(buf);
    __sa_eq(c->newMetadataBytes, p - buf - sizeof(Checkpoint), "checkpoint: dictionary bytes");
    __sa_eq(c->totalMetadataEntries, GeneratedFunctions::numLogIds, "checkpoint: dictionary entries");
    FILE *f = __sa_file(buf, p);
    Checkpoint cp;
    __sa_true(readCheckpoint(cp, f), "an encoded checkpoint is accepted");
    __sa_eq(cp.newMetadataBytes, p - buf - sizeof(Checkpoint), "checkpoint: dictionary bytes");
}
'''


class RT:
    def __init__(self, mod, unroll=8):
        self.mod = mod
        it = self.it = Interp(mod, unroll=unroll)
        it.malloc_may_fail = False
        filemodel.install(it)
        M = it.models
        M['__sa_eq'] = self.eq
        M['__sa_true'] = self.true
        M['__sa_pos'] = self.pos
        M['__sa_len'] = self.length
        M['__sa_bytes'] = self.bytes
        M['__sa_file'] = self.file
        M['__sa_end'] = self.end
        M['__assert_fail'] = self.fail
        M['__sa_end2'] = self.end2
        M['__sa_clock'] = self.clock
        M['time'] = self.time
        M['llvm.x86.rdtsc'] = self.tsc
        self.rdtsc = 0
        it.do_asm = self.asm
        self.reached = 0

    def time(self, it, s, I, a):
        s.ghost['time'] = it.top_int(s, 62, 'time')
        return [(s, s.ghost['time'], 'ret')]

    def tsc(self, it, s, I, a):
        s.ghost['tsc'] = it.top_int(s, 64, 'tsc')
        return [(s, s.ghost['tsc'], 'ret')]

    def asm(self, s, I, code, args):
        it = self.it
        v = it.top(s, I.ty, 'asm')
        from sa.absint import Agg
        if isinstance(v, Agg) and len(v.v) == 2 and 'rdtsc' in str(code):
            lo, hi = it.top_int(s, 32, 'tsc.lo'), it.top_int(s, 32, 'tsc.hi')
            v = Agg([lo, hi])
            s.ghost['tsc'] = hi.scale(1 << 32) + lo
        return [(s, v)]

    def clock(self, it, s, I, a):
        for k, v in (('tsc', a[0]), ('time', a[1])):
            g = s.ghost.get(k)
            it.require(s, I, 'rt.clock', g is not None and same(it, s, v, g, 64),
                       'checkpoint: %s stored is not the one read from the clock' % ('cycle counter' if k == 'tsc' else 'wall time'))
        f = a[2]
        ok = isinstance(f, Opq) and f.tag and 'cyclesPerSec' in str(f.tag)
        it.require(s, I, 'rt.clock', bool(ok), 'checkpoint: cycles per second stored is not the calibrated value')
        return [(s, None, 'ret')]

    def what(self, v):
        if isinstance(v, Ptr):
            s = self.mod.cstring(v.r.name.lstrip('@'))
            if s:
                return s.rstrip(b'\0').decode()
        return '?'

    def fail(self, it, s, I, a):
        it.require(s, I, 'rt.assert', False, 'an assertion can fail on encoded data')
        return []

    def eq(self, it, s, I, a):
        self.reached += 1
        w = self.what(a[2])
        ok = same(it, s, a[0], a[1], 64)
        it.require(s, I, 'rt.equal', ok, '%s: decoded %r, encoded %r' % (w, a[0], a[1]),
                   isinstance(a[0], Lin) and it.is_tainted(s, a[0]))
        return [(s, None, 'ret')]

    def true(self, it, s, I, a):
        w = self.what(a[1])
        for t, b in it.split_bool(s.copy(), a[0]):
            it.require(t, I, 'rt.holds', b, 'not always true: %s' % w)
        return [(s, None, 'ret')]

    def pos(self, it, s, I, a):
        ok = all(isinstance(x, Ptr) for x in a[:2]) and a[0].r is a[1].r and s.p.entails_eq(a[0].o - a[1].o)
        it.require(s, I, 'rt.position', ok, '%s: %r instead of %r' % (self.what(a[2]), a[0], a[1]))
        return [(s, None, 'ret')]

    def length(self, it, s, I, a):
        ok = isinstance(a[1], Ptr) and a[1].r is a[0].r
        w = self.what(a[4])
        if it.require(s, I, 'rt.length', ok, '%s: position outside the buffer' % w):
            n = a[1].o - a[0].o
            it.require_ge(s, I, 'rt.length', n - a[2], '%s: too few bytes' % w)
            it.require_ge(s, I, 'rt.length', a[3] - n, '%s: too many bytes' % w)
        return [(s, None, 'ret')]

    def bytes(self, it, s, I, a):
        n = s.p.norm(a[2])
        w = self.what(a[3])
        for o in range(0, n.c):
            x = it.load(s, Ptr(a[0].r, a[0].o + o), ir.ity(8))
            y = it.load(s, Ptr(a[1].r, a[1].o + o), ir.ity(8))
            it.require(s, I, 'rt.bytes', same(it, s, x, y, 8), '%s: byte %d differs' % (w, o))
        return [(s, None, 'ret')]

    def file(self, it, s, I, a):
        if not (isinstance(a[1], Ptr) and a[1].r is a[0].r):
            it.require(s, I, 'rt.position', False, 'encoder position outside its buffer')
            return []
        return [(s, filemodel.make(it, s, a[0].r, a[0].o, s.p.norm(a[1].o - a[0].o)), 'ret')]

    def end(self, it, s, I, a):
        src, start, length = filemodel.info(s, a[0])
        pos = s.ghost[('fpos', a[0].r.n)]
        it.require(s, I, 'rt.consumed', s.p.entails_eq(pos - length), '%s: consumed %r of %r' % (
            self.what(a[1]), s.p.norm(pos), s.p.norm(length)))
        return [(s, None, 'ret')]

    def end2(self, it, s, I, a):
        src, start, length = filemodel.info(s, a[0])
        it.require(s, I, 'rt.length', s.p.entails_eq(a[1] - length), '%s: %r instead of %r' % (self.what(a[2]), a[1], length))
        return [(s, None, 'ret')]


def run(res, tier):
    res.rules += ['decode(encode(fields)) = fields for every value of every field',
                  'the decoder consumes exactly the bytes the encoder produced',
                  'tags of messages, extents, dictionary fragments and checkpoints are distinct and recognised',
                  'records that do not fit leave the buffer position unchanged']
    res.assumptions += ['file names and format strings shorter than 64 KiB (their lengths are stored in 16 bits)',
                        'a stream delivers the bytes of the file in order; sequences of at most three messages per extent '
                        '(the decoder state after a message is (position, timestamp), so longer ones repeat the second step)']
    for asserts in (False, True):
        mod = build.compile_ir(None, 'cpp17', asserts, text=WITNESS, name='rt.cc')
        buf = Region('buf', None, 'heap', 'undef')
        # headers
        R = RT(mod)
        s = State()
        it = R.it
        go(res, R, 'w_hdr', s, [Ptr(buf), it.top_int(s, 32, 'id'), it.top_int(s, 64, 'ts'), it.top_int(s, 64, 'last')])
        # extents
        R = RT(mod)
        s = State()
        it = R.it
        bf = Region('bf', None, 'heap', 'lazy')
        go(res, R, 'w_extent', s, [Ptr(buf), it.sym(s, 'cap', 0, (1 << 30) - 1), it.top_int(s, 32, 'id'), it.top_int(s, 1, 'pass'), Ptr(bf)])
        # messages
        for ids in (((1,), (0, 1), (0, 1, 0)) if not asserts or tier == 'thorough' else ((1,),)):
            n = len(ids)
            R = RT(mod)
            s = State()
            it = R.it
            frm = Region('from', None, 'heap', 'undef')
            for i in range(n):
                it.store(s, Ptr(frm, K(16 * i)), K(ids[i]), 4)
                it.store(s, Ptr(frm, K(16 * i + 8)), it.top_int(s, 64, 'ts%d' % i) if i == n - 1 else K((1 << 40) + 12345 - 777 * i), 8)
            go(res, R, 'w_msgs', s, [Ptr(buf), Ptr(frm), it.top_int(s, 32, 'id') if n == 1 else K(77777),
                                      it.top_int(s, 1, 'pass') if n == 1 else K(n & 1), Ptr(bf), K(n), K(0)])
        # two extents in one buffer
        for id0, id1 in ((3, 500), (500, 500), (70000, 0)):
            R = RT(mod)
            s = State()
            it = R.it
            frm = Region('from', None, 'heap', 'undef')
            it.store(s, Ptr(frm), K(0), 4)
            it.store(s, Ptr(frm, K(8)), K(123456), 8)
            go(res, R, 'w_two', s, [Ptr(buf), Ptr(frm), K(id0), K(id1), Ptr(bf)])
        # checkpoint
        R = RT(mod)
        s = State()
        it = R.it
        go(res, R, 'w_checkpoint', s, [Ptr(buf), it.sym(s, 'cap', 0, (1 << 30) - 1)])
        # dictionary
        for already in (0, 1):
            R = RT(mod)
            dictionary(res, R, buf, already)
        # checkpoint with the preprocessor's dictionary
        pmod = build.compile_ir(None, 'pre', asserts, text=PRE, name='rtp.cc')
        R = RT(pmod)
        s = State()
        it = R.it

        def wd(it, s, I, a):
            p, lim = a
            t = s.copy()
            out = [(t, K(-1), 'ret')]
            n = it.sym(s, 'n', 0, 1 << 30)
            s.p.assume(lim.o - p.o - n)
            it.havoc(s, p.r, p.o, n, I)
            return out + [(s, n, 'ret')]
        it.models['_ZN18GeneratedFunctions15writeDictionaryEPcS0_'] = wd
        g = it.region_of_global('_ZN18GeneratedFunctions9numLogIdsE')
        it.store(s, Ptr(g), it.sym(s, 'numLogIds', 0, (1 << 32) - 1), 8)
        go(res, R, 'w_checkpoint_dict', s, [Ptr(buf), it.sym(s, 'cap', 0, (1 << 30) - 1)])
    res.floor('obligations', sum(a for a, _ in res.oblig.values()), 100)


def dictionary(res, R, buf, already):
    it, mod = R.it, R.mod
    s = State()
    strs = []
    for nm in ('f0', 's0', 'f1', 's1'):
        strs.append(Region(nm, None, 'obj', 'lazy'))
    it.max_strlen = 65533
    l0, l1 = it.top_int(s, 32, 'line0'), it.top_int(s, 32, 'line1')
    v0, v1 = it.top_int(s, 8, 'sev0'), it.top_int(s, 8, 'sev1')
    dec = Region('decoder', None, 'heap', 'lazy')
    want = [(strs[0], strs[1], l0, v0), (strs[2], strs[3], l1, v1)]

    def begin(it, s, I, a):
        s.ghost['dn'] = 0
        s.ghost['dwant'] = a[0]
        return [(s, None, 'ret')]

    def fin(it, s, I, a):
        it.require(s, I, 'rt.dict-count', s.p.entails_eq(s.ghost['dwant'] - s.ghost['dn']),
                   'the decoder reads %d dictionary entries, %r were encoded' % (s.ghost['dn'], s.ghost['dwant']))
        return [(s, None, 'ret')]

    def samebytes(it, s, I, got, reg, what):
        j = it.sym(s, 'j', 0, 65535)
        L = None
        for s2, n, _ in it.models['strlen'](it, s, I, [Ptr(reg)]):
            L = n
        t = s.copy()
        t.p.assume(L - j)      # includes the terminator
        if not isinstance(got, Ptr):
            it.require(s, I, 'rt.dict', False, '%s of a dictionary entry is lost' % what)
            return
        x = it.load(t, Ptr(got.r, got.o + j), ir.ity(8))
        y = it.load(t, Ptr(reg, j), ir.ity(8))
        it.require(t, I, 'rt.dict', same(it, t, x, y, 8), '%s of a dictionary entry is not what was encoded' % what)

    def micro(it, s, I, a):
        k = s.ghost['dn']
        if k >= 2:
            it.require(s, I, 'rt.dict-count', False, 'the decoder reads more dictionary entries than were encoded')
            return []
        f, st, ln, sv = want[k]
        samebytes(it, s, I, a[1], st, 'format string')
        samebytes(it, s, I, a[2], f, 'file name')
        it.require(s, I, 'rt.dict', same(it, s, a[3], ln, 32), 'line number of a dictionary entry is not what was encoded')
        it.require(s, I, 'rt.dict', same(it, s, a[4], sv, 8), 'severity of a dictionary entry is not what was encoded')
        s.ghost['dn'] = k + 1
        return [(s, K(1), 'ret')]

    def vec(it, s, I, a):
        return [(s, None if I.ty.k == 'void' else a[0], 'ret')]
    it.models['__sa_dict_begin'] = begin
    it.models['__sa_dict_end'] = fin
    n = 0
    for name in mod.fns:
        d = mod.demangle(name)
        if 'Decoder::createMicroCode(' in d:
            it.models[name] = micro
            n += 1
        if d.startswith('std::vector<void*') or d.startswith('std::vector<std::__cxx11::basic_string'):
            it.models[name] = vec
        if 'std::vector<void*' in d.split('(')[0] or 'std::vector<std::__cxx11' in d.split('(')[0]:
            it.models[name] = vec
    if not n:
        raise AnalysisError('no createMicroCode')
    go(res, R, 'w_dict', s, [Ptr(buf), it.sym(s, 'cap', 0, (1 << 30) - 1), K(0)] + [Ptr(x) for x in strs] + [l0, l1, v0, v1, Ptr(dec), K(already)])


def go(res, R, fn, s, args):
    outs = R.it.run(R.mod.fns[fn], args, s)
    if not outs and not R.it.violations:
        raise AnalysisError('%s: no path reaches the end' % fn)
    res.absorb(R.it)
    res.count('witness_paths', len(outs))
    for u, k in R.it.unmodelled.items():
        res.count('unmodelled:' + u, k)


LEVEL = 'proof'
EXPLAIN = ('encoder and decoder are interpreted back to back on symbolic fields; obligations are the equalities of '
           'decoded and encoded fields and the byte counts on every path')
