"""C01  staged bytes are never overwritten, lost, duplicated or reordered.

Thread-modular (rely/guarantee) abstract interpretation of the producer and the
consumer half of the staging ring buffer, over convex polyhedra.  Offsets are
relative to the start of the storage array, S = its size:
  N (not wrapped)  0 <= C <= P <= S                unconsumed = [C,P)
  W (wrapped)      0 <= P <  C <= E <= S           unconsumed = [C,E) then [0,P)
Every load of a position owned by the other thread first lets that thread make any
number of legal moves (rely); every store to a position must be a legal move of its
owner (guarantee) and keep N or W true.
"""
from sa import build, ir
from sa.absint import Interp, State, Ptr, Region, Cond, NULLR, AnalysisError, W
from sa.poly import K, var, Lin, INF

WITNESS = r'''
#define EXPOSE_PRIVATES
#include "RuntimeLogger.cc"
#include <new>
using namespace NanoLogInternal;
typedef RuntimeLogger::StagingBuffer SB;
extern "C" void __sa_written(char *p, size_t n);
extern "C" void __sa_published(char *p, size_t n);
extern "C" void __sa_peeked(char *p, uint64_t n);
extern "C" void __sa_consumed(uint64_t k);
extern "C" uint64_t __sa_upto(uint64_t n);
extern "C" void w_ctor(SB *sb, uint32_t id) { new (sb) SB(id); }
extern "C" void w_log(SB *sb, size_t n) {
    char *p = sb->reserveProducerSpace(n);
    __sa_written(p, n);
    sb->finishReservation(n);
    __sa_published(p, n);
}
extern "C" char *w_try(SB *sb, size_t n) { return sb->reserveSpaceInternal(n, false); }
extern "C" void w_poll(SB *sb) {
    uint64_t n;
    char *p = sb->peek(&n);
    __sa_peeked(p, n);
    uint64_t k = __sa_upto(n);
    sb->consume(k);
    __sa_consumed(k);
}
extern "C" bool w_candelete(SB *sb) { return sb->checkCanDelete(); }
'''

FIELDS = ['producerPos', 'endOfRecordedSpace', 'minFreeSpace', 'consumerPos', 'shouldDeallocate', 'storage']


class Ring:
    def __init__(self, mod):
        self.mod = mod
        f = mod.fields('StagingBuffer')
        for n in FIELDS:
            if n not in f:
                raise AnalysisError('StagingBuffer has no field ' + n)
        self.f = f
        self.base = f['storage'][0]
        self.S = f['storage'][1]

    def interp(self, role, rely=True, **kw):
        it = Interp(self.mod, unroll=kw.pop('unroll', 3))
        it.on_load = self.on_load
        it.on_store = self.on_store
        it.do_asm = lambda s, I, code, args: self.asm(it, s, I, code, args)
        it.on_fence = lambda s, I: self.barrier(s)
        for n in ('__sa_written', '__sa_published', '__sa_peeked', '__sa_consumed', '__sa_upto'):
            it.models[n] = getattr(self, 'm' + n[4:])
        it.models['__assert_fail'] = self.m_assert
        it.role, it.rely = role, rely
        return it

    def m_assert(self, it, s, I, a):
        it.require(s, I, 'ring.assert', False, 'an assertion of the staging buffer can fail')
        return []

    # ---- fences
    def barrier(self, s):
        s.ghost['pend'] = 0
        s.ghost['pendE'] = 0
        s.ghost['pendR'] = 0
        s.ghost['ldP'] = 0
        return [(s, None)]

    def asm(self, it, s, I, code, args):
        if 'memory' in code[1]:
            self.barrier(s)
        if 'fence' in code[0]:
            self.barrier(s)
        if I.ty.k == 'void':
            return [(s, None)]
        return [(s, it.top(s, I.ty, 'asm'))]

    # ---- state
    def field(self, it, s, n):
        v = it.load(s, Ptr(self.sb, K(self.f[n][0])), ir.PTR if n != 'minFreeSpace' else ir.ity(64))
        if n == 'minFreeSpace':
            return s.p.norm(v)
        if not isinstance(v, Ptr) or v.r is not self.sb:
            return None
        return s.p.norm(v.o - self.base)

    def start(self, it, shape, drained=False):
        s = State()
        self.sb = Region('sb', None, 'heap')
        S = self.S
        P = it.sym(s, 'P', 0, S)
        C = it.sym(s, 'C', 0, S)
        E = it.sym(s, 'E', 0, S)
        F = it.sym(s, 'F', 0, S)
        if shape == 'N':
            s.p.assume(P - C)
            s.p.assume(K(S) - P - F)
            if drained:
                s.p.assume_eq(P - C)
        else:
            s.p.assume(C - P - 1)
            s.p.assume(E - C)
            s.p.assume(C - P - F)
        self.setf(it, s, 'producerPos', P)
        self.setf(it, s, 'consumerPos', C)
        self.setf(it, s, 'endOfRecordedSpace', E)
        it.store(s, Ptr(self.sb, K(self.f['minFreeSpace'][0])), F, 8)
        s.ghost.update(shape=shape, pend=0, pendE=0, pendR=0, ldP=0, quiesced=0, phase='')
        s.ghost['P0'], s.ghost['C0'], s.ghost['E0'], s.ghost['shape0'] = P, C, E, shape
        return s

    def setf(self, it, s, n, off):
        it.store(s, Ptr(self.sb, K(self.f[n][0])), Ptr(self.sb, off + self.base), 8)

    def which(self, s, p):
        if isinstance(p, Ptr) and p.r is self.sb:
            o = s.p.norm(p.o)
            if o.is_const():
                for n in FIELDS:
                    if self.f[n][0] == o.c and n != 'storage':
                        return n
                for n, (fo, fs, _) in self.f.items():
                    if fo <= o.c < fo + fs and n != 'storage':
                        return '.' + n
                if o.c >= self.base:
                    return 'data'
                return '.'
            return 'data'
        return None

    # ---- rely
    def move_consumer(self, it, s):
        """every legal move of the consumer: list of states"""
        P, C, E = (self.field(it, s, x) for x in ('producerPos', 'consumerPos', 'endOfRecordedSpace'))
        out = []
        if s.ghost['shape'] == 'N':
            t = s.copy()
            c2 = it.sym(t, "C'", 0, self.S)
            t.p.assume(c2 - C)
            t.p.assume(P - c2)
            self.setf(it, t, 'consumerPos', c2)
            out.append(t)
        else:
            t = s.copy()
            c2 = it.sym(t, "C'", 0, self.S)
            t.p.assume(c2 - C)
            t.p.assume(E - c2)
            self.setf(it, t, 'consumerPos', c2)
            out.append(t)
            t = s.copy()
            c2 = it.sym(t, "C'", 0, self.S)
            t.p.assume(P - c2)
            self.setf(it, t, 'consumerPos', c2)
            t.ghost['shape'] = 'N'
            out.append(t)
        return [t for t in out if not t.p.dead]

    def move_producer(self, it, s):
        if s.ghost['quiesced']:
            return [s]
        P, C, E = (self.field(it, s, x) for x in ('producerPos', 'consumerPos', 'endOfRecordedSpace'))
        out = []
        if s.ghost['shape'] == 'N':
            t = s.copy()
            p2 = it.sym(t, "P'", 0, self.S)
            e2 = it.sym(t, "E'", 0, self.S)
            t.p.assume(p2 - P)
            self.setf(it, t, 'producerPos', p2)
            self.setf(it, t, 'endOfRecordedSpace', e2)
            out.append(t)
            t = s.copy()
            p2 = it.sym(t, "P'", 0, self.S)
            e2 = it.sym(t, "E'", 0, self.S)
            t.p.assume(e2 - P)
            t.p.assume(C - p2 - 1)
            self.setf(it, t, 'producerPos', p2)
            self.setf(it, t, 'endOfRecordedSpace', e2)
            t.ghost['shape'] = 'W'
            out.append(t)
        else:
            t = s.copy()
            p2 = it.sym(t, "P'", 0, self.S)
            t.p.assume(p2 - P)
            t.p.assume(C - p2 - 1)
            self.setf(it, t, 'producerPos', p2)
            out.append(t)
        return [t for t in out if not t.p.dead]

    # ---- hooks
    def on_load(self, it, s, I, p, ty):
        n = self.which(s, p)
        if n is None or not it.rely:
            return None
        if it.role == 'producer' and n == 'consumerPos':
            outs = self.move_consumer(it, s)
            if 'atomic' in I.flags:
                for t in outs:
                    self.barrier(t)
            return [(t, it.load(t, p, ty, I.fn.mod)) for t in outs]
        if it.role == 'consumer' and n in ('producerPos', 'endOfRecordedSpace'):
            if n == 'endOfRecordedSpace' and s.ghost['ldP'] and 'atomic' not in I.flags:
                it.require(s, I, 'ring.load-order', False,
                           'the end marker is read without a barrier after reading the producer '
                           'position, so a stale marker can be paired with a new position')
            elif n == 'endOfRecordedSpace':
                it.ob('ring.load-order', True)
            outs = self.move_producer(it, s)
            for t in outs:
                if n == 'producerPos':
                    t.ghost['ldP'] = 0 if 'atomic' in I.flags else 1
            return [(t, it.load(t, p, ty, I.fn.mod)) for t in outs]
        if it.role == 'consumer' and n == 'shouldDeallocate':
            out = []
            if s.ghost['quiesced']:
                return [(s, K(1))]
            for t in self.move_producer(it, s):
                u = t.copy()
                u.ghost['quiesced'] = 1
                out.append((u, K(1)))
                out.append((t, K(0)))
            return out
        return None

    def on_store(self, it, s, I, p, v, size):
        n = self.which(s, p)
        if n is None or n[0] == '.':
            return None
        rel = 'atomic' in I.flags and I.x and ('release' in I.x or 'seq_cst' in I.x or 'acq_rel' in I.x)
        if rel:
            self.barrier(s)
        if it.role == 'ctor':
            return None
        if n == 'data':
            it.require(s, I, 'ring.no-stray-data-write', False,
                       'the ring buffer code itself writes into the data area')
            return None
        owner = {'producerPos': 'producer', 'endOfRecordedSpace': 'producer', 'minFreeSpace': 'producer',
                 'consumerPos': 'consumer', 'shouldDeallocate': 'owner-exit'}[n]
        if not it.require(s, I, 'ring.ownership', owner == it.role,
                          '%s is written by the %s side but belongs to the %s side' % (n, it.role, owner)):
            return None
        if n == 'minFreeSpace':
            return None
        if not isinstance(v, Ptr) or v.r is not self.sb:
            it.require(s, I, 'ring.position-in-buffer', False,
                       '%s is set to something that is not a position in the buffer' % n)
            return None
        new = s.p.norm(v.o - self.base)
        P, C, E = (self.field(it, s, x) for x in ('producerPos', 'consumerPos', 'endOfRecordedSpace'))
        sh = s.ghost['shape']
        S = self.S
        if n == 'endOfRecordedSpace':
            if sh == 'W':
                it.require(s, I, 'ring.end-marker-stable', s.p.entails_eq(new - E),
                           'the end-of-data marker changes while the consumer still relies on it')
            s.ghost['pendE'] = 1
            return None
        if n == 'producerPos':
            it.require(s, I, 'ring.publish-fence', not s.ghost['pend'],
                       'the producer position is advanced with no barrier after the entry was written')
            it.require(s, I, 'ring.rollover-fence', not s.ghost['pendE'],
                       'the producer position rolls over with no barrier after the end marker was set')
            outs = []
            if sh == 'W':
                it.require_ge(s, I, 'ring.no-overwrite', new - P,
                              'producer position moves backwards while wrapped')
                it.require_ge(s, I, 'ring.no-overwrite', C - new - 1,
                              'producer position reaches or passes the consumer position')
                return None
            # shape N: forward or rollover
            fwd, back = s.copy(), s
            if fwd.p.assume(new - P):
                it.require_ge(fwd, I, 'ring.in-bounds', K(S) - new,
                              'producer position leaves the buffer')
                if s.ghost['phase'] != 'written':
                    it.require_ge(fwd, I, 'ring.publish-exact', P - new,
                                  'bytes become visible that no log call has written')
                it.store(fwd, p, v, size, I)
                outs.append(fwd)
            if back.p.assume(P - new - 1):
                it.require(back, I, 'ring.rollover-start', back.p.entails_eq(new),
                           'producer rolls over to a position that is not the start of the buffer')
                it.require_ge(back, I, 'ring.no-overwrite', C - new - 1,
                              'roll-over makes producer and consumer position meet, so a full buffer '
                              'looks empty')
                it.require(back, I, 'ring.end-marker-exact', back.p.entails_eq(E - P),
                           'producer rolls over without recording where the data ends')
                it.store(back, p, v, size, I)
                back.ghost['shape'] = 'W'
                outs.append(back)
            return outs
        if n == 'consumerPos':
            it.require(s, I, 'ring.consume-fence', not s.ghost['pendR'],
                       'space is released with no barrier after the bytes were read')
            if s.ghost['phase'] == 'consuming':
                k = s.ghost['k']
                it.require(s, I, 'ring.consume-exact', s.p.entails_eq(new - C - k),
                           'releasing k bytes does not advance the consumer position by k')
                lim = P if sh == 'N' else E
                it.require_ge(s, I, 'ring.consume-bound', lim - new,
                              'consumer position passes the recorded data')
                return None
            # inside peek: only the roll-over is a legal move
            outs = []
            same, roll = s.copy(), s
            if same.p.assume_eq(new - C):
                it.store(same, p, v, size, I)
                outs.append(same)
            for r in it.assume(roll, Cond('ne', new - C)):
                ok = sh == 'W'
                it.require(r, I, 'ring.rollover-consumer', ok,
                           'consumer jumps although the producer has not wrapped around')
                if ok:
                    it.require(r, I, 'ring.rollover-consumer', r.p.entails_eq(new),
                               'consumer rolls over to a position that is not the start of the buffer')
                    it.require(r, I, 'ring.no-loss', r.p.entails_eq(E - C),
                               'consumer rolls over before consuming everything up to the end marker')
                it.store(r, p, v, size, I)
                r.ghost['shape'] = 'N'
                outs.append(r)
            return outs
        return None

    # ---- witness events
    def m_written(self, it, s, I, a):
        p, n = a
        if isinstance(p, Ptr) and p.r is NULLR:
            it.require(s, I, 'ring.reserve-nonnull', False, 'a blocking reservation returns no space')
            return []
        if not isinstance(p, Ptr) or p.r is not self.sb:
            it.require(s, I, 'ring.reserve-in-buffer', False, 'reservation is not inside the buffer')
            return []
        o = s.p.norm(p.o - self.base)
        P, C, E = (self.field(it, s, x) for x in ('producerPos', 'consumerPos', 'endOfRecordedSpace'))
        it.require(s, I, 'ring.reserve-at-position', s.p.entails_eq(o - P),
                   'reserved space does not start at the producer position')
        it.require_ge(s, I, 'ring.in-bounds', K(self.S) - o - n,
                      'reserved space extends past the end of the buffer')
        if s.ghost['shape'] == 'W':
            it.require_ge(s, I, 'ring.no-overwrite', C - o - n - 1,
                          'reserved space overlaps bytes the consumer has not consumed (or fills the '
                          'buffer so that it looks empty)')
        s.ghost['pend'] = 1
        s.ghost['phase'] = 'written'
        s.ghost['o'], s.ghost['n'] = o, n
        return [(s, None, 'ret')]

    def m_published(self, it, s, I, a):
        P = self.field(it, s, 'producerPos')
        it.require(s, I, 'ring.publish-exact', s.p.entails_eq(P - s.ghost['o'] - s.ghost['n']),
                   'publishing n bytes does not advance the producer position by n')
        self.post_producer(it, s, I)
        return [(s, None, 'ret')]

    def post_producer(self, it, s, I):
        P, C, F = (self.field(it, s, x) for x in ('producerPos', 'consumerPos', 'minFreeSpace'))
        lim = K(self.S) - P if s.ghost['shape'] == 'N' else C - P
        for s2, f in it.as_u(s, F, 64):
            it.require_ge(s2, I, 'ring.free-space-bound', lim - f,
                          'the cached free-space bound exceeds the space that is really free, so a '
                          'later message overwrites unconsumed bytes or leaves the buffer')

    def m_peeked(self, it, s, I, a):
        p, n = a
        P, C, E = (self.field(it, s, x) for x in ('producerPos', 'consumerPos', 'endOfRecordedSpace'))
        if not isinstance(p, Ptr) or p.r is not self.sb or not isinstance(n, Lin):
            it.require(s, I, 'ring.peek-position', False, 'peek does not return a position in the buffer')
            return []
        out = []
        for s, n in it.as_u(s, n, 64):
            o = s.p.norm(p.o - self.base)
            it.require(s, I, 'ring.peek-position', s.p.entails_eq(o - C),
                       'peek does not return the consumer position')
            sh, sh0 = s.ghost['shape'], s.ghost['shape0']
            P0, C0, E0 = s.ghost['P0'], s.ghost['C0'], s.ghost['E0']
            lim = P if sh == 'N' else E
            it.require_ge(s, I, 'ring.peek-bound', lim - C - n,
                          'peek hands out bytes that have not been published')
            # completeness: what was already there when peek was called is handed out
            if sh0 == 'N':
                need = [P0 - C0]
                cases = [(s, P0 - C0)]
            else:
                cases = []
                t = s.copy()
                if t.p.assume(E0 - C0 - 1):
                    cases.append((t, E0 - C0))
                t = s.copy()
                if t.p.assume_eq(E0 - C0):
                    cases.append((t, P0))
            for t, need in cases:
                it.require_ge(t, I, 'ring.no-loss', n - need,
                              'peek does not hand out bytes that were already published')
            s.ghost['pendR'] = 1
            s.ghost['n'] = n
            out.append((s, None, 'ret'))
        return out

    def m_upto(self, it, s, I, a):
        k = it.sym(s, 'k', 0, self.S)
        s.p.assume(a[0] - k)
        s.ghost['phase'] = 'consuming'
        s.ghost['k'] = k
        s.ghost['Cpre'] = self.field(it, s, 'consumerPos')
        return [(s, k, 'ret')]

    def m_consumed(self, it, s, I, a):
        C = self.field(it, s, 'consumerPos')
        it.require(s, I, 'ring.consume-exact', s.p.entails_eq(C - s.ghost['Cpre'] - s.ghost['k']),
                   'releasing k bytes does not advance the consumer position by k')
        return [(s, None, 'ret')]


def run(res, tier):
    res.rules = [
        'rely/guarantee: every store to a ring position is a legal move of its owner and keeps N or W',
        'reserved space is disjoint from unconsumed bytes for every consumer interleaving',
        'publishing/releasing moves positions by exactly the given byte count',
        'barrier between data writes and publication, end marker and roll-over, reads and release',
        'progress: a drained buffer accepts any message shorter than half of it',
    ]
    res.assumptions += [
        'one producer thread and one consumer thread per staging buffer (checked separately by C14)',
        'pointer-sized loads and stores of the positions are atomic (x86-64)',
        'any asm memory clobber or fence counts as a barrier (x86-TSO)']
    for asserts in (False, True):
        mod = build.compile_ir(None, 'cpp17', asserts, text=WITNESS, name='ring.cc')
        R = Ring(mod)
        n_runs = 0
        # constructor
        it = R.interp('ctor')
        s = State()
        R.sb = Region('sb', None, 'heap')
        s.ghost.update(pend=0, pendE=0, pendR=0, ldP=0)
        outs = it.run(mod.fns['w_ctor'], [Ptr(R.sb), it.top_int(s, 32)], s)
        for t, _, k in outs:
            if k != 'ret':
                continue
            P, C, F = (R.field(it, t, x) for x in ('producerPos', 'consumerPos', 'minFreeSpace'))
            ok = P is not None and C is not None and t.p.entails_eq(P - C)
            fn = mod.fns['w_ctor']
            I = list(fn.instrs())[-1]
            it.require(t, I, 'ring.init', ok, 'a new staging buffer does not start empty')
            if ok:
                it.require(t, I, 'ring.init', t.p.entails(P) and t.p.entails(K(R.S) - P - F),
                           'a new staging buffer starts with a wrong free-space bound')
        res.absorb(it)
        for shape in ('N', 'W'):
            it = R.interp('producer')
            s = R.start(it, shape)
            n = it.sym(s, 'n', 0, (1 << 63))
            it.run(mod.fns['w_log'], [Ptr(R.sb), n], s)
            res.absorb(it)
            # non-blocking variant
            it = R.interp('producer')
            s = R.start(it, shape)
            n = it.sym(s, 'n', 0, (1 << 63))
            fn = mod.fns['w_try']
            I = list(fn.instrs())[-1]
            for t, v, k in it.run(fn, [Ptr(R.sb), n], s):
                R.post_producer(it, t, I)
            res.absorb(it)
            it = R.interp('consumer')
            s = R.start(it, shape)
            outs = it.run(mod.fns['w_poll'], [Ptr(R.sb)], s)
            res.absorb(it)
            res.count('consumer_paths', len(outs))
        # progress
        it = R.interp('producer', rely=False, unroll=8)
        s = R.start(it, 'N', drained=True)
        n = it.sym(s, 'n', 0, R.S // 2 - 1)
        spun = []
        orig = it.join

        def join(*a, **k):
            spun.append(1)
            return orig(*a, **k)
        it.join = join
        outs = it.run(mod.fns['w_log'], [Ptr(R.sb), n], s)
        fn = mod.fns['w_log']
        I = list(fn.instrs())[0]
        it.require(s, I, 'ring.progress', not spun and bool(outs),
                   'with the buffer drained, staging a message shorter than half the buffer can spin forever')
        res.absorb(it)
        res.count('storage_bytes', R.S if not asserts else 0)
    # positive example kept in place: the rule set must reject a broken ring
    selftest(res)
    res.floor('obligations', sum(a for a, _ in res.oblig.values()), 60)


def selftest(res):
    """the machinery must fire on a deliberately broken copy (dropped strictness)"""
    txt = r'''
typedef unsigned long u64;
struct StagingBuffer { char *producerPos; char *endOfRecordedSpace; u64 minFreeSpace;
  char *volatile consumerPos; bool shouldDeallocate; char storage[1024]; };
extern "C" void __sa_written(char*, u64); extern "C" void __sa_published(char*, u64);
extern "C" void w_log(StagingBuffer *b, u64 n) {
  while (b->minFreeSpace <= n) { char *c = b->consumerPos;
    if (c <= b->producerPos) { b->minFreeSpace = b->storage + 1024 - b->producerPos;
       if (b->minFreeSpace > n) break;
       b->endOfRecordedSpace = b->producerPos;
       __asm__ __volatile__("sfence" ::: "memory");
       b->producerPos = b->storage; b->minFreeSpace = c - b->producerPos;
    } else b->minFreeSpace = c - b->producerPos; }
  char *p = b->producerPos; __sa_written(p, n);
  __asm__ __volatile__("sfence" ::: "memory");
  b->minFreeSpace -= n; b->producerPos += n; __sa_published(p, n); }
'''
    mod = build.compile_ir(None, 'cpp17', False, text=txt, name='selftest.cc')
    R = Ring(mod)
    it = R.interp('producer')
    s = R.start(it, 'N')
    n = it.sym(s, 'n', 0, 1 << 40)
    it.run(mod.fns['w_log'], [Ptr(R.sb), n], s)
    if not any(v['rule'] == 'ring.no-overwrite' for v in it.violations):
        raise AnalysisError('self-test: broken ring not rejected')
    res.count('selftest_rejections', len(it.violations))


LEVEL = 'proof'
EXPLAIN = ('rely/guarantee abstract interpretation (convex polyhedra) of the staging ring buffer compiled '
           'from the working tree; each obligation is one rule at one store/return in one abstract state')
