"""Shared machinery of C03, C04, C05, C06, C14 and C15: the background thread and the
hand-shake around it, executed abstractly against an arbitrary environment.

One arbitrary message m in one arbitrary staging buffer B is tracked.  B sits at an arbitrary
index k of a list of arbitrary length n.  Other threads act whenever a lock the background
thread does not hold allows them to: they push buffers, register sites, stage m, call sync().
Encoder, staging buffer and POSIX AIO are replaced by their contracts (C01, C08, C10, the
manual); every interleaving point of the contracts is an obligation on the caller."""
import re
from sa import build, ir, poly
from sa.absint import NULLR, Interp, State, Ptr, Region, Opq, ANY, AnalysisError, fresh
from sa.poly import K, Lin, var

SRC = r'''
#define EXPOSE_PRIVATES
#include "RuntimeLogger.cc"
#include "NanoLog.cc"
extern "C" {
extern const unsigned long __sa_output = NanoLogConfig::OUTPUT_BUFFER_SIZE;
extern const unsigned long __sa_threshold = NanoLogConfig::RELEASE_THRESHOLD;
extern const unsigned long __sa_staging = NanoLogConfig::STAGING_BUFFER_SIZE;
extern const long __sa_flags = NanoLogConfig::FILE_PARAMS;
extern const unsigned long __sa_infosize = sizeof(NanoLogInternal::StaticLogInfo);
void __sa_run(NanoLogInternal::RuntimeLogger *);
const void *__sa_keep[] = { (void*)__sa_run };
}
'''
MUTEXES = ('bufferMutex', 'registrationMutex', 'condMutex')
RELEVANT = ('threadBuffers', 'nextBufferId', 'hasOutstandingOperation', 'compressionThreadShouldExit', 'syncStatus', 'outputFd', 'aioCb',
            'compressingBuffer', 'outputDoubleBuffer', 'currentLogLevel', 'invocationSites',
            'nextInvocationIndexToBePersisted', 'compressionThread', 'workAdded', 'hintSyncCompleted') + MUTEXES
EINPROGRESS = 115
O_APPEND, O_TRUNC = 0o2000, 0o1000


class Bg:
    def __init__(self, mod, facet):
        """facet: what is tracked precisely; everything else is left arbitrary.
        sync: the tracked message and the sync state    aio: output buffers, writes, staged bytes
        life: staging buffer list and deletion           dict: dictionary positions     lock: only the locks"""
        self.mod = mod
        self.facet = facet
        self.flavour = 'cpp17'
        self.listed = facet in ('life', 'sync')
        self.f = mod.fields('RuntimeLogger')
        for n in RELEVANT:
            if n not in self.f:
                raise AnalysisError('member RuntimeLogger::%s not found' % n)
        g = [n for n in mod.globals if re.search(r'RuntimeLogger16nanoLogSingletonE$', n)]
        if len(g) != 1:
            raise AnalysisError('logger singleton not found')
        self.singleton = g[0]
        self.metric = sorted((o, o + z) for n, (o, z, _) in self.f.items() if n not in RELEVANT and not n.startswith('_vptr') and z >= 4)
        self.const = {n: self.constant('__sa_' + n) for n in ('output', 'threshold', 'staging', 'flags', 'infosize')}
        self.status = self.enum('SYNC_REQUESTED', 'SYNC_COMPLETED', 'PERFORMING_SECOND_PASS', 'WAITING_ON_AIO')
        self.REQ, self.DONE = self.status['SYNC_REQUESTED'], self.status['SYNC_COMPLETED']
        self.cb = mod.fields('aiocb')
        if 'aio_buf' not in self.cb:
            raise AnalysisError('struct aiocb not found')
        self.edges = {}
        self.events = {}

    def constant(self, n):
        for g in (n, '@' + n):
            if g in self.mod.globals:
                return self.mod.global_init(g)[1].v
        raise AnalysisError('constant %s' % n)

    def enum(self, *names):
        out = {}
        for t in self.mod.md.values():
            if 'DIEnumerator(' in t[:30]:
                m = re.search(r'name: "([^"]*)", value: (-?\d+)', t)
                if m and m.group(1) in names:
                    out[m.group(1)] = int(m.group(2))
        for n in names[:2]:
            if n not in out:
                raise AnalysisError('enumerator %s not found' % n)
        return out

    # ------------------------------------------------------------------ set-up
    def interp(self):
        mod = self.mod
        poly.Poly.carries = True
        it = Interp(mod, unroll=0, max_steps=6000000, max_states=20000)
        self.it = it
        self.S = it.region_of_global(self.singleton)
        self.X, self.Y = Region('outputBufferX', self.const['output'], 'heap'), Region('outputBufferY', self.const['output'], 'heap')
        self.TB = Region('threadBuffers[]', None, 'heap')
        self.MOVED = Region('moved list entry', None, 'heap')
        self.SITES = Region('invocationSites[]', None, 'heap')
        self.B, self.O = Region('stagingBufferB', None, 'heap'), Region('stagingBufferO', None, 'heap')
        self.MB, self.MO = Region('staged bytes of B', None, 'heap'), Region('staged bytes of O', None, 'heap')
        it.merge_key = self.merge_key
        it.loop_key = self.merge_key
        it.flag_partition = True
        it.gc_syms = True
        it.cap_counts = it.branch_flags_only = True
        it.join_templates = self.templates
        it.ghost_join = lambda k, a, b: None
        it.on_load, it.on_store = self.on_load, self.on_store
        it.ret_merge = self.merge_key
        if self.facet == 'sync':
            it.part_env = self.part_env
        self.index_names = {}
        M = it.models
        for n, f in (('pthread_mutex_lock', self.m_lock), ('pthread_mutex_unlock', self.m_unlock),
                     ('aio_error', self.m_aio_error), ('aio_return', self.m_aio_return), ('aio_suspend', self.m_aio_suspend),
                     ('aio_write', self.m_aio_write)):
            M[n] = f
            M[n + '64'] = f
        for n in ('perror', 'fprintf', 'strerror', '__errno_location', 'printf', 'fdatasync', 'snprintf', 'puts', 'fputs', 'fwrite', 'fflush'):
            M[n] = self.m_pure
        self.lookup = [
            (r'\bstd::(?:min|max)<(?:unsigned )?(?:int|long)>\((?:unsigned )?(?:int|long) const&, ', self.m_minmax),
            (r'\bStagingBuffer::peek\(', self.m_peek),
            (r'\bStagingBuffer::consume\(', self.m_consume),
            (r'\bStagingBuffer::checkCanDelete\(', self.m_candelete),
            (r'\bStagingBuffer::~StagingBuffer\(', self.m_sbdtor),
            (r'\bEncoder::Encoder\(', self.m_encoder),
            (r'\bEncoder::encodeLogMsgs\(', self.m_encode),
            (r'\bEncoder::encodeNewDictionaryEntries\(', self.m_dict),
            (r'\bEncoder::getEncodedBytes\(', self.m_bytes),
            (r'\bEncoder::swapBuffer\(', self.m_swap),
            (r'\bCycles::rdtsc\(', self.m_pure),
            (r'\bstd::condition_variable::wait_for<long, std::ratio<[^(]*\(std::unique_lock<std::mutex>&, std::chrono::duration<[^()]*> const&\)$', self.m_wait),
            (r'\bstd::condition_variable::wait_until<std::chrono::[^(]*\(std::unique_lock<std::mutex>&, std::chrono::time_point<.*> const&\)$', self.m_wait),
            (r'\bstd::(?:_V2::)?condition_variable::wait\(std::unique_lock<std::mutex>&\)$', self.m_wait),
            (r'\bstd::(?:_V2::)?condition_variable::notify_(?:one|all)\(', self.m_notify),
            (r'\bstd::chrono::_V2::', self.m_pure),
            (r'^std::vector<NanoLogInternal::StaticLogInfo, std::allocator<NanoLogInternal::StaticLogInfo>\s*>::', self.m_vec),
        ]
        for n in list(mod.fns) + list(mod.decls):
            d = mod.demangle(n)
            for pat, f in self.lookup:
                if re.search(pat, d):
                    if f == self.m_minmax:
                        f = self.minmax('std::max<' in d, 'unsigned' in d, 64 if 'long>' in d else 32)
                    if f == self.m_vec:
                        op = re.search(r'>::([\w~]+|operator\S+?)\(', d)
                        f = self.vec(op.group(1) if op else '?', d)
                    M[n] = f
                    break
        for n in list(mod.decls):
            if n.startswith('llvm.memmove') or n.startswith('llvm.memcpy') or n in ('memmove', 'memcpy'):
                M[n] = self.memmove(M.get(n))
        return it

    ORDER = {
        'sync': ('m', 'R', 'op', 'present', 'locks', 'side', 'wr', 'chk', 'ntf', 'pk', 'rel', 'phase'),
        'aio': ('op', 'opreg', 'remreg', 'encreg', 'encsub', 'locks', 'pk', 'more', 'phase'),
        'life': ('locks', 'cand', 'cur', 'dead', 'freed', 'removed', 'phase'),
        'dict': ('locks', 'offer', 'offered', 'phase'),
        'lock': ('locks', 'phase')}

    def merge_key(self, it, s):
        g = s.ghost
        out = [repr(g.get(k)) for k in self.ORDER[self.facet]]
        if self.positions(s):
            lo, hi = s.p.bounds(g['n'])
            out.append('0' if hi <= 0 else '+' if lo > 0 else '?')
        cells = {'sync': ('syncStatus', 'hasOutstandingOperation'),
                 'aio': ('hasOutstandingOperation', 'compressingBuffer', 'outputDoubleBuffer')}
        for fld in cells.get(self.facet, ()):
            v = self.cell(s, fld)
            if isinstance(v, Lin):
                v = s.p.norm(v)
                v = v.c if v.is_const() else '?'
            elif isinstance(v, Ptr):
                v = v.r.name
            out.append(str(v))
        return tuple(out)

    def part_env(self, fn, s, e):
        """a list index that just wrapped to 0 is kept apart from one that did not"""
        if not self.located(s):
            return None
        names = self.index_names.get(fn.name)
        if names is None:
            defs = {i.res: i for i in fn.instrs() if i.res}
            work = []
            for i in fn.instrs():
                if i.op in ('call', 'invoke') and re.search(r'StagingBuffer.*::(?:operator\[\]|at|operator\+)\(', self.mod.demangle(str(i.x['callee'].v).lstrip('@'))):
                    work += i.ops
            names = set()
            while work:
                v = work.pop()
                if v.k != 'local' or v.v in names:
                    continue
                d = defs.get(v.v)
                if d is not None and d.op in ('phi', 'add', 'sub', 'urem', 'zext', 'sext', 'trunc', 'select', 'freeze'):
                    names.add(v.v)
                    work += [x for x, _ in d.x] if d.op == 'phi' else d.ops
            self.index_names[fn.name] = names
        return tuple(sorted(n for n in names if isinstance(e.get(n), Lin) and s.p.entails_eq(e[n])))

    def templates(self, s, env):
        """relations tried as invariants besides the ones the states suggest"""
        g = s.ghost
        vs = {v for v in env.values() if isinstance(v, Lin) and len(v.t) == 1}
        for r, w in s.mem.items():
            if r.kind == 'stack':
                while w is not None:
                    if isinstance(w.v, Lin) and len(w.v.t) == 1:
                        vs.add(w.v)
                    w = w.prev
        out = []
        if self.positions(s):
            out += [K(1 << 30) - g['n'], g['n'] - 1]
            if self.facet == 'sync':
                out += [g['enc'], g['enc'] - 1]
                if g['m'] == 'sub':
                    nb = self.it.load(s, Ptr(self.S, K(self.f['aioCb'][0] + self.cb['aio_nbytes'][0])), ir.ity(64))
                    if isinstance(nb, Lin):
                        out += [nb, K(self.const['output']) - nb]
            if self.located(s):
                out += [g['n'] - g['k'] - 1, g['k'], g['last'], g['n'] - g['last'] - 1]
            for v in vs:
                out += [v, g['n'] - v - 1, g['n'] - v]
            if self.located(s):
                vs |= {g['last']}
                for v in vs:
                    for x in (g['k'], g['last']):
                        out += [v - x, x - v, v - x - 1, x - v - 1]
        if self.facet == 'aio':
            for v in vs:
                for e in (g['pb'] - g['eo'] - v, g['pb'] - v):
                    out += [e, -e]
                out.append(v)
            nb = self.it.load(s, Ptr(self.S, K(self.f['aioCb'][0] + self.cb['aio_nbytes'][0])), ir.ity(64))
            if isinstance(nb, Lin):
                out += [nb, K(self.const['output']) - nb]
            out += [g['enc'], g['oplen'], g['remoff'], K(self.const['output']) - g['oplen']]
        return out

    def cell(self, s, fld):
        off, size, _ = self.f[fld]
        ty = ir.PTR if fld.endswith('Buffer') else ir.ity(8 * size)
        return self.it.load(s, Ptr(self.S, K(off)), ty)

    def setcell(self, s, fld, v):
        off, size, _ = self.f[fld]
        self.it.store(s, Ptr(self.S, K(off)), v, size)

    def fresh_state(self):
        it = self.it
        s = State()
        n = it.sym(s, 'n', 0, 1 << 30)
        s.ghost.update(
            m='-', R=0, op='none', opreg=None, remreg=None, encreg=None, encsub=0, present=0, locks=(), side=None, wr=0, chk=0, rel=None,
            cand=None, dead=None, ntf=0, pk=None, freed=None, removed=0, phase='', sat=0, more=0, offer=0, offered=0,
            oplen=K(0), remoff=K(0), remlen=K(0), enc=K(0), k=K(0), n=n, N=it.sym(s, 'N', 0, 1 << 30), dictEnc=K(0),
            pos=K(0), pb=K(0), eo=K(0), co=K(0), last=K(0), curidx=K(0), cur=None, deadidx=K(0))
        return s

    # ------------------------------------------------------------------ memory
    def on_load(self, it, s, I, p, ty):
        if not isinstance(p, Ptr):
            return None
        r = p.r
        if r is self.S:
            o = s.p.norm(p.o)
            if not o.is_const():
                return [(s, self.any(s, ty))]
            o = o.c
            for a, b in self.metric:
                if a <= o < b:
                    return [(s, self.any(s, ty))]
            f = self.f
            if f['threadBuffers'][0] <= o < f['threadBuffers'][0] + 24:
                self.need(it, s, I, 'bufferMutex', 'the list of staging buffers is read')
                d = o - f['threadBuffers'][0]
                if not self.positions(s):
                    s.ghost['n'] = it.sym(s, 'n', 0, 1 << 30)
                if d == 16:
                    c = it.sym(s, 'cap', 0, 1 << 31)
                    s.p.assume(c - s.ghost['n'])
                    return [(s, Ptr(self.TB, c.scale(8)))]
                return [(s, Ptr(self.TB, K(0) if d == 0 else s.ghost['n'].scale(8)))]
            if o == f['nextBufferId'][0]:
                self.need(it, s, I, 'bufferMutex', 'the next buffer id is read')
            if f['invocationSites'][0] <= o < f['invocationSites'][0] + 24:
                self.need(it, s, I, 'registrationMutex', 'the list of logging sites is read')
            if o == f['hasOutstandingOperation'][0] and self.facet not in ('sync', 'aio') and s.ghost['phase'] == 'bg':
                return [(s, it.sym(s, 'outstanding', 0, 1))]
            if o in (f['compressingBuffer'][0], f['outputDoubleBuffer'][0]) and self.facet != 'aio' and s.ghost['phase'] == 'bg':
                return [(s, Ptr(self.X))]
            if o == f['nextInvocationIndexToBePersisted'][0] and self.facet != 'dict' and s.ghost['phase'] == 'bg':
                return [(s, it.sym(s, 'next', 0, 1 << 30))]
            if o == f['syncStatus'][0] and self.facet != 'sync':
                return [(s, it.sym(s, 'status', 0, 3))]
            if o == f['compressionThreadShouldExit'][0] and s.ghost['phase'] == 'bg':
                return [(s, it.sym(s, 'exit', 0, 1))]
            if o == f['syncStatus'][0] and 'condMutex' not in s.ghost['locks']:
                return [(x, it.load(x, p, ty)) for x in self.sync_env(s)]
            return None
        if r is self.TB:
            return self.tb_load(it, s, I, p)
        if r in (self.B, self.O) and s.ghost['freed'] == r.name:
            it.require(s, I, 'life.uaf', False, 'a staging buffer is used after it was freed')
        return None

    def on_store(self, it, s, I, p, v, size):
        if not isinstance(p, Ptr):
            return None
        r = p.r
        if r is self.S:
            o = s.p.norm(p.o)
            if not o.is_const():
                return [s]
            o = o.c
            for a, b in self.metric:
                if a <= o < b:
                    return [s]
            f = self.f
            d = o - f['threadBuffers'][0]
            if 0 <= d < 24 and s.ghost['phase'] == 'init':
                it.require(s, I, 'list.push', isinstance(v, Ptr) and v.r is NULLR or isinstance(v, Lin) and s.p.entails_eq(v),
                           'the list of staging buffers is not empty at the start')
                return [s]
            if 0 <= d < 24:
                self.need(it, s, I, 'bufferMutex', 'the list of staging buffers is changed')
                if d == 8 and isinstance(v, Ptr) and v.r is self.TB:
                    return self.tb_resize(it, s, I, self.div8(s, v.o) if self.listed else None)
                if d != 16:
                    raise AnalysisError('the list of staging buffers is changed in a way that is not understood')
                return [s]
            if o == f['nextBufferId'][0]:
                self.need(it, s, I, 'bufferMutex', 'the next buffer id is changed')
            if f['invocationSites'][0] <= o < f['invocationSites'][0] + 24:
                self.need(it, s, I, 'registrationMutex', 'the list of logging sites is changed')
            if o == f['syncStatus'][0]:
                self.need(it, s, I, 'condMutex', 'the sync state is changed')
                return self.sync_store(it, s, I, v) if self.facet == 'sync' else [s]
            if o == f['hasOutstandingOperation'][0] and self.facet not in ('sync', 'aio') and s.ghost['phase'] == 'bg':
                return [s]
            if o in (f['compressingBuffer'][0], f['outputDoubleBuffer'][0]) and self.facet != 'aio' and s.ghost['phase'] == 'bg':
                return [s]
            if o == f['nextInvocationIndexToBePersisted'][0] and self.facet != 'dict' and s.ghost['phase'] == 'bg':
                return [s]
            if o == f['hasOutstandingOperation'][0] or o == f['nextInvocationIndexToBePersisted'][0] or o == f['outputFd'][0]:
                return self.flag_store(it, s, I, p, v, size, o)
            return None
        if r is self.TB:
            return self.tb_store(it, s, I, p, v)
        if r in (self.X, self.Y):
            g = s.ghost
            it.require(s, I, 'aio.inflight', not (g['op'] == 'prog' and g['opreg'] is r), 'the buffer being written to the log file is modified')
        if r in (self.B, self.O) and s.ghost['freed'] == r.name:
            it.require(s, I, 'life.uaf', False, 'a staging buffer is used after it was freed')
        return None

    def flag_store(self, it, s, I, p, v, size, o):
        return None

    def need(self, it, s, I, lock, what):
        g = s.ghost
        alone = g['phase'] == 'init' or g['phase'] == 'dtor' and g['joined']
        return it.require(s, I, 'lock.' + lock, lock in g['locks'] or alone,
                          '%s without holding %s' % (what, lock))

    def memmove(self, base):
        def f(it, s, I, a):
            dst, src = a[0], a[1]
            if isinstance(dst, Ptr) and dst.r is self.TB:
                if not (isinstance(src, Ptr) and src.r is self.TB):
                    raise AnalysisError('the list of staging buffers is overwritten')
                self.need(it, s, I, 'bufferMutex', 'the list of staging buffers is changed')
                if not self.positions(s):
                    return [(s, dst, 'ret')]
                x, y = self.div8(s, dst.o), self.div8(s, src.o)
                d = s.p.norm(y - x)
                if not (d.is_const() and d.c == 1):
                    raise AnalysisError('the list of staging buffers is moved by %r' % d)
                return [(t, dst, 'ret') for t in self.tb_erase(it, s, I, x, False)]
            if base is None:
                return None
            return base(it, s, I, a)
        return f

    def div8(self, s, o):
        o = s.p.norm(o)
        if all(k % 8 == 0 for _, k in o.t) and o.c % 8 == 0:
            return Lin(o.c // 8, tuple((x, k // 8) for x, k in o.t))
        q, r = self.it.divmod_c(s, o, 8)
        return q

    # ------------------------------------------------------------------ the list of staging buffers
    def cases(self, s, a, b):
        """[(state, sign of a-b)]"""
        out = []
        for sg in (-1, 0, 1):
            t = s.copy()
            d = a - b
            ok = t.p.assume_eq(d) if sg == 0 else t.p.assume(d.scale(sg) - 1)
            if ok:
                out.append((t, sg))
        return out

    def tb_load(self, it, s, I, p):
        g = s.ghost
        self.need(it, s, I, 'bufferMutex', 'an entry of the list of staging buffers is read')
        if not self.listed:
            return [(s, Ptr(self.O))]
        i = self.div8(s, p.o)
        if 'stl_algobase' in self.mod.loc(I):
            # the library moves an entry while it erases another one
            if not self.positions(s):
                return [(s, Ptr(self.O))]
            it.require_ge(s, I, 'list.bounds', g['n'] - i - 1, 'the list of staging buffers is moved past its end')
            return [(s, Ptr(self.MOVED, i))]
        if self.facet == 'life':
            it.require(s, I, 'life.dangling', g['dead'] is None, 'an entry of the list is read while the list still holds a freed buffer')
            if not (it.require_ge(s, I, 'list.bounds', i, 'the list of staging buffers is read before its start')
                    and it.require_ge(s, I, 'list.bounds', g['n'] - i - 1, 'the list of staging buffers is read past its end')):
                return []
            g.update(cand=None, freed=None, removed=0, curidx=i, cur='O')
            return [(s, Ptr(self.O))]
        if self.facet == 'sync' and g['m'] in ('-', 'st', 'enc'):
            # whether an older write is outstanding does not matter for m
            self.setcell(s, 'hasOutstandingOperation', it.sym(s, 'outstanding', 0, 1))
        if not (s.p.assume(i) and s.p.assume(g['n'] - i - 1)):
            return []           # C14 shows that this does not happen
        if g['m'] != 'st':
            # the position of B only matters once a sync is being waited for
            g.update(side=None, wr=0, chk=0, last=K(0), rel=None, pk=None)
            return [(s, Ptr(self.O))]
        if g['chk']:
            g['pk'] = g['rel'] = None
            return [(s.copy(), Ptr(self.B)), (s, Ptr(self.O))]
        states = [s]
        if g['side'] is None:
            # first entry of a pass: where is B relative to it?
            states = []
            if g['present']:
                for t, sg in self.cases(s, g['k'], i):
                    t.ghost.update(side=int(sg >= 0), wr=0, last=i)
                    states.append(t)
            else:
                s.ghost.update(side='-', wr=0, last=i)
                states = [s]
        elif g['wr'] == 0:
            states = []
            t = s.copy()
            if t.p.assume(i - g['last']):
                t.ghost['last'] = i
                states.append(t)
            t = s.copy()
            if t.p.assume(g['last'] - i - 1):
                t.ghost.update(wr=1, last=i)
                states.append(t)
        else:
            s.ghost['last'] = i
        outs = []
        for t in states:
            h = t.ghost
            if not h['present']:
                outs.append((t, Ptr(self.O)))
                continue
            for u, sg in self.cases(t, h['k'], i):
                u.ghost['rel'] = sg
                outs.append((u, Ptr(self.O if sg else self.B)))
        return outs

    def tb_erase(self, it, s, I, i, pop):
        """entry i leaves the list, later ones move down (the length is updated separately)"""
        g = s.ghost
        g['moved'] = 1
        if self.facet == 'life':
            ok = g['cur'] is not None and s.p.entails_eq(g['curidx'] - i)
            it.require(s, I, 'life.erase', ok and (g['cand'] == g['cur'] or g['dead'] is not None),
                       'a staging buffer leaves the list although nothing showed that its owner exited and it is drained')
            if ok:
                g['dead'] = None
                g['removed'] = 1
            return [s]
        if not self.located(s) or not g['present']:
            return [s]
        outs = []
        for t, sg in self.cases(s, g['k'], i):
            h = t.ghost
            h.update(rel=None, side=None, wr=0)
            if sg == 0:
                h.update(present=0, k=K(0))
            elif sg == 1:
                h['k'] = h['k'] - 1
            outs.append(t)
        return outs

    def positions(self, s):
        g = s.ghost
        return self.facet in ('life', 'sync')

    def located(self, s):
        g = s.ghost
        return self.facet == 'sync' and g['m'] == 'st' and not g['chk']

    def tb_resize(self, it, s, I, n2):
        g = s.ghost
        if not self.listed:
            g['n'] = it.sym(s, 'n', 0, 1 << 30)
            return [s]
        d = s.p.norm(g['n'] - n2)
        if not self.positions(s):
            g['n'] = n2
            return [s]
        if d.is_const() and d.c == 1:
            if g.get('moved'):
                g['moved'] = 0
                g['n'] = n2
                return [s]
            outs = []
            for t in self.tb_erase(it, s, I, n2, True):
                t.ghost['moved'] = 0
                t.ghost['n'] = n2
                outs.append(t)
            return outs
        if d.is_const() and d.c == -1:
            g['n'] = n2
            return [s]
        raise AnalysisError('the list of staging buffers is resized by %r' % d)

    def tb_store(self, it, s, I, p, v):
        self.need(it, s, I, 'bufferMutex', 'an entry of the list of staging buffers is changed')
        g = s.ghost
        if not self.positions(s):
            return [s]
        i = self.div8(s, p.o)
        if isinstance(v, Ptr) and v.r is self.MOVED:
            if s.p.entails_eq(v.o - i - 1) and s.p.entails_eq(g['n'] - v.o - 1):
                return self.tb_erase(it, s, I, i, False)
            raise AnalysisError('the list of staging buffers is rearranged in a way that is not understood')
        if s.p.entails_eq(i - g['n']):
            # push_back
            self.pushed(it, s, I, v)
            return [s]
        raise AnalysisError('an entry of the list of staging buffers is overwritten')

    def pushed(self, it, s, I, v):
        pass

    # ------------------------------------------------------------------ locks
    def mutex(self, s, p):
        if isinstance(p, Ptr) and p.r is self.S and s.p.norm(p.o).is_const():
            for n in MUTEXES:
                if self.f[n][0] == s.p.norm(p.o).c:
                    return n
        return repr(p)

    def m_lock(self, it, s, I, a):
        n = self.mutex(s, a[0])
        g = s.ghost
        if not it.require(s, I, 'lock.double', n not in g['locks'], '%s is locked twice by the same thread' % n):
            return []
        for h in g['locks']:
            self.edges.setdefault((h, n), self.where(I))
        g['locks'] = g['locks'] + (n,)
        return [(t, K(0), 'ret') for t in self.env(it, s, I, n)]

    def where(self, I):
        return '%s in %s' % (self.mod.loc(I), I.fn.pretty)

    def m_unlock(self, it, s, I, a):
        n = self.mutex(s, a[0])
        g = s.ghost
        it.require(s, I, 'lock.held', n in g['locks'], '%s is released although it is not held' % n)
        if n == 'bufferMutex':
            it.require(s, I, 'life.dangling', g['dead'] is None, 'the list of staging buffers is released while it holds a freed buffer')
            g['cand'] = None
        if n == 'registrationMutex' and g['phase'] == 'bg' and self.facet == 'dict':
            if it.require(s, I, 'dict.progress', g['offer'] or s.p.entails(g['dictEnc'] - g['N']),
                          'log sites are registered but their dictionary entries are not encoded: their messages would never be written'):
                g['offered'] = 1
            g['offer'] = 0
        g['locks'] = tuple(x for x in g['locks'] if x != n)
        return [(s, K(0), 'ret')]

    def env(self, it, s, I, n):
        """what other threads may have done before this lock was granted"""
        g = s.ghost
        if g['phase'] != 'bg':
            return [s]
        if n == 'registrationMutex':
            N2 = it.sym(s, 'N', 0, 1 << 30)
            if not s.p.assume(N2 - g['N']):
                return []
            g['N'] = N2
            return [s]
        if n == 'bufferMutex':
            it.require(s, I, 'sync.notify', not g['ntf'], 'sync() is complete but its waiters are not notified')
            g['ntf'] = 0
            n0 = g['n']
            n2 = it.sym(s, 'n', 0, 1 << 30)
            if not s.p.assume(n2 - n0):
                return []
            g['n'] = n2
            states = [s]
            if self.positions(s):
                states = []
                t = s.copy()
                if t.p.assume_eq(n2):
                    states.append(t)
                if s.p.assume(n2 - 1):
                    states.append(s)
            return states
        if n == 'condMutex':
            return self.sync_env(s)
        return [s]

    def sync_env(self, s):
        """calls of sync() by other threads; one of them is the tracked one, made when m was staged"""
        g = s.ghost
        if g['phase'] != 'bg' or self.facet != 'sync':
            return [s]
        if g['R'] == 0 and not g['ntf']:
            # nothing is tracked: the state of other calls does not matter
            self.setcell(s, 'syncStatus', self.it.sym(s, 'status', 0, 3))
        out = [s]
        v = self.cell(s, 'syncStatus')
        if not (isinstance(v, Lin) and s.p.norm(v) == K(self.REQ)):
            t = s.copy()
            self.setcell(t, 'syncStatus', K(self.REQ))
            out.append(t)
        if g['R'] == 0:
            # the tracked call; m is in an arbitrary buffer, or encoded, or submitted
            for m in ('st', 'enc', 'sub'):
                t = s.copy()
                h = t.ghost
                self.setcell(t, 'syncStatus', K(self.REQ))
                h['R'], h['m'] = 1, m
                if m == 'st':
                    h['present'] = 1
                    h['k'] = self.it.sym(t, 'k', 0, 1 << 30)
                    if t.p.assume(h['n'] - h['k'] - 1):
                        out.append(t)
                elif m == 'enc':
                    if t.p.assume(h['enc'] - 1):
                        out.append(t)
                else:
                    out_ = self.cell(t, 'hasOutstandingOperation')
                    if isinstance(out_, Lin) and t.p.assume_eq(out_ - 1):
                        self.setcell(t, 'hasOutstandingOperation', K(1))
                        out.append(t)
        return out

    def ended(self, s):
        """m has reached the file, or the OS reported that it could not be written"""
        s.ghost.update(m='-', R=0, rel=None, present=0, side=None, wr=0, chk=0, k=K(0), last=K(0))

    def sync_store(self, it, s, I, v):
        g = s.ghost
        outs = []
        if g['phase'] != 'bg':
            return self.sync_store_caller(it, s, I, v)
        for c in sorted(set(self.status.values()) | {0, 1, 2, 3}):
            t = s.copy()
            if not t.p.assume_eq(v - c):
                continue
            h = t.ghost
            if c == self.DONE:
                if h['R'] == 1:
                    it.require(t, I, 'sync.durable', h['m'] == '-',
                               'sync() is reported complete while a message logged before it is %s' % {
                                   'st': 'still in its staging buffer', 'enc': 'encoded but not written',
                                   'sub': 'not completely written'}.get(h['m'], h['m']))
                    self.ended(t)
                h['ntf'] = 1
            self.setcell(t, 'syncStatus', K(c))
            outs.append(t)
        return outs

    def m_notify(self, it, s, I, a):
        p = a[0]
        if isinstance(p, Ptr) and p.r is self.S and s.p.norm(p.o) == K(self.f['hintSyncCompleted'][0]):
            s.ghost['ntf'] = 0
            self.event(s, 'notify:hintSyncCompleted')
        elif isinstance(p, Ptr) and p.r is self.S and s.p.norm(p.o) == K(self.f['workAdded'][0]):
            self.event(s, 'notify:workAdded')
        return [(s, None, 'ret')]

    def event(self, s, name):
        pass

    def m_wait(self, it, s, I, a):
        ptrs = [x for x in a if isinstance(x, Ptr)]
        mtx = it.load(s, Ptr(ptrs[1].r, ptrs[1].o), ir.PTR)
        n = self.mutex(s, mtx)
        g = s.ghost
        it.require(s, I, 'lock.held', n in g['locks'], 'waiting releases %s, which is not held' % n)
        it.require(s, I, 'lock.wait', all(x == n for x in g['locks']), 'the thread sleeps while holding %s' % ', '.join(x for x in g['locks'] if x != n))
        it.require(s, I, 'sync.notify', not g['ntf'], 'the background thread goes to sleep after completing a sync without notifying')
        g['ntf'] = g['offered'] = 0
        outs = []
        for t in self.wait_env(it, s, I, n, ptrs[0]):
            outs.append((t, it.top(t, I.ty, 'cvstatus') if I.ty.k != 'void' else None, 'ret'))
        return outs

    def wait_env(self, it, s, I, n, cv):
        return self.env(it, s, I, n)

    def any(self, s, ty):
        return ANY if ty.k == 'int' and ty.a > 8 else self.it.top(s, ty, 'any')

    def m_minmax(self):
        pass

    def minmax(self, mx, unsigned, w):
        def f(it, s, I, a):
            x, y = (it.load(s, p, ir.ity(w)) for p in a[:2])
            if not (isinstance(x, Lin) and isinstance(y, Lin)):
                return None
            out = []
            conv = it.as_u if unsigned else it.as_s
            for s, x in conv(s, x, w):
                for s, y in conv(s, y, w):
                    t = s.copy()
                    if t.p.assume(y - x):       # x <= y
                        out.append((t, a[1] if mx and not t.p.entails_eq(x - y) else a[0], 'ret'))
                    if s.p.assume(x - y - 1):
                        out.append((s, a[0] if mx else a[1], 'ret'))
            return out
        return f

    def m_pure(self, it, s, I, a):
        return [(s, self.any(s, I.ty) if I.ty.k != 'void' else None, 'ret')]

    # ------------------------------------------------------------------ staging buffers
    def which(self, p, s):
        if self.facet != 'life' and self.facet != 'aio' and s.ghost['m'] != 'st':
            return 'O'      # which buffer it is no longer matters (and may have been forgotten)
        if isinstance(p, Ptr) and p.r is self.B:
            return 'B'
        if isinstance(p, Ptr) and p.r is self.O:
            return 'O'
        raise AnalysisError('unknown staging buffer %r' % (p,))

    def drained(self, it, s, I):
        g = s.ghost
        if self.facet != 'aio':
            g['pk'] = None
            return
        if g['pk']:
            it.require(s, I, 'once.consumed', s.p.entails_eq(g['eo'] - g['co']),
                       'encoded bytes of a staging buffer are not released: they would be encoded again')
        g.update(pk=None, pos=K(0), pb=K(0), eo=K(0), co=K(0))

    def m_peek(self, it, s, I, a):
        w = self.which(a[0], s)
        if s.ghost['freed'] is not None and s.ghost['freed'] == a[0].r.name:
            it.require(s, I, 'life.uaf', False, 'a staging buffer is used after it was freed')
            return []
        self.drained(it, s, I)
        if self.facet == 'dict':
            it.require(s, I, 'dict.progress', s.ghost['offered'] == 1, 'staging buffers are scanned without encoding the new dictionary entries since the thread last slept')
        outs = []
        if w == 'B' and s.ghost['m'] == 'st' and self.facet == 'sync':
            # B has been looked at in this pass, where it is no longer matters
            s.ghost.update(chk=1, side=None, wr=0, k=K(0), last=K(0), rel=None)
        for empty in (0, 1):
            u = s.copy()
            if empty and w == 'B' and s.ghost['m'] == 'st':
                continue
            pb = K(0) if empty else it.sym(u, 'pb', 1, self.const['staging'] - 1)
            pos = it.sym(u, 'pos', 0, self.const['staging'])
            it.store(u, a[1], pb, 8)
            if self.facet == 'aio':
                u.ghost.update(pk=w, pos=pos, pb=pb, eo=K(0), co=K(0), more=1 - empty)
            elif self.facet == 'sync':
                u.ghost['pk'] = w if w == 'B' and s.ghost['m'] == 'st' else None
                if not empty:
                    u.ghost['rel'] = None
            outs.append((u, Ptr(self.MB if w == 'B' else self.MO, pos), 'ret'))
        return outs

    def m_consume(self, it, s, I, a):
        w = self.which(a[0], s)
        g = s.ghost
        outs = []
        if s.ghost['freed'] is not None and s.ghost['freed'] == a[0].r.name:
            it.require(s, I, 'life.uaf', False, 'a staging buffer is used after it was freed')
            return []
        if self.facet != 'aio':
            return [(s, None, 'ret')]
        for t, x in it.as_u(s, a[1], 64):
            h = t.ghost
            it.require(t, I, 'once.consume', h['pk'] == w, 'bytes of a staging buffer are released that were not peeked at')
            it.require_ge(t, I, 'once.consume', h['eo'] - h['co'] - x, 'bytes are released before they are encoded')
            h['co'] = t.p.norm(h['co'] + x)
            outs.append((t, None, 'ret'))
        return outs

    def m_candelete(self, it, s, I, a):
        w = self.which(a[0], s)
        outs = []
        if s.ghost['freed'] is not None and s.ghost['freed'] == a[0].r.name:
            it.require(s, I, 'life.uaf', False, 'a staging buffer is used after it was freed')
            return []
        t = s.copy()
        t.ghost['cand'] = t.ghost['rel'] = None
        outs.append((t, K(0), 'ret'))
        if not (self.facet == 'sync' and w == 'B' and s.ghost['m'] == 'st'):
            s.ghost['cand'] = w
            outs.append((s, K(1), 'ret'))
        return outs

    def m_sbdtor(self, it, s, I, a):
        w = self.which(a[0], s)
        g = s.ghost
        if self.facet != 'life':
            return [(s, None, 'ret')]
        it.require(s, I, 'life.delete', g['cand'] == w and g['cur'] == w, 'a staging buffer is freed although nothing shows that its owner exited and it is drained')
        it.require(s, I, 'life.delete', 'bufferMutex' in g['locks'], 'a staging buffer is freed without holding bufferMutex')
        if not g['removed']:
            g['dead'] = w
        g['freed'] = a[0].r.name
        return [(s, None, 'ret')]

    # ------------------------------------------------------------------ encoder
    def buffer_free(self, it, s, I, reg, what):
        g = s.ghost
        it.require(s, I, 'aio.inflight', not (g['op'] == 'prog' and g['opreg'] is reg), what + ' while it is being written to the log file')
        it.require(s, I, 'aio.short', g['remreg'] is not reg or reg is None, what + ' although part of it is not written yet')

    def m_encoder(self, it, s, I, a):
        g = s.ghost
        b = a[1]
        g['phase'] = 'bg'
        g['enc'] = it.sym(s, 'enc', 1, self.const['output'])
        if self.facet != 'aio':
            return [(s, None, 'ret')]
        ok = isinstance(b, Ptr) and b.r in (self.X, self.Y) and s.p.norm(b.o) == K(0)
        it.require(s, I, 'aio.buffer', ok, 'the encoder starts on memory that is not one of the two output buffers')
        it.require(s, I, 'aio.size', isinstance(a[2], Lin) and s.p.entails(K(self.const['output']) - a[2]), 'the encoder is told the buffer is larger than it is')
        it.require(s, I, 'file.checkpoint', isinstance(a[3], Lin) and s.p.norm(a[3]) == K(0), 'the output starts without a checkpoint')
        if not ok:
            return []
        self.buffer_free(it, s, I, b.r, 'the encoder starts on a buffer')
        g['encreg'] = b.r
        g['enc'] = it.sym(s, 'enc', 1, self.const['output'])
        g['encsub'] = 0
        self.encobj = a[0]
        g['phase'] = 'bg'
        return [(s, None, 'ret')]

    def encoding(self, it, s, I):
        g = s.ghost
        if self.facet != 'aio':
            return
        if g['encreg'] is None:
            raise AnalysisError('encoder used before construction')
        self.buffer_free(it, s, I, g['encreg'], 'messages are encoded into a buffer')
        it.require(s, I, 'once.after', not g['encsub'], 'messages are encoded behind content that was already submitted')

    def grow(self, it, s, lo):
        g = s.ghost
        e = it.sym(s, 'enc', lo, self.const['output'])
        s.p.assume(e - g['enc'])
        g['enc'] = e

    def m_encode(self, it, s, I, a):
        g = s.ghost
        self.encoding(it, s, I)
        frm, nb, bid = a[1], a[2], a[3]
        outs = []
        for t, n in it.as_u(s, nb, 64):
            h = t.ghost
            if self.facet == 'aio':
                w = h['pk']
                reg = {'B': self.MB, 'O': self.MO}.get(w)
                ok = it.require(t, I, 'once.position', w is not None and isinstance(frm, Ptr) and frm.r is reg
                                and t.p.entails_eq(frm.o - h['pos'] - h['eo']),
                                'encoding does not continue where it stopped in the staged bytes')
                ok &= it.require_ge(t, I, 'once.range', h['pb'] - h['eo'] - n, 'more bytes are encoded than were staged')
                it.require_ge(t, I, 'once.extent', K(self.const['staging'] // 2) - n, 'one extent can grow larger than the decoder can hold')
                if not ok:
                    continue
                sb = self.B if w == 'B' else self.O
                idf = self.mod.fields('StagingBuffer').get('id')
                if idf:
                    want = it.load(t, Ptr(sb, K(idf[0])), ir.ity(32))
                    it.require(t, I, 'once.id', isinstance(bid, Lin) and isinstance(want, Lin) and t.p.entails_eq(bid - want),
                               'messages are encoded under another buffer\'s id')
            if self.facet == 'dict' and 'pre' not in self.flavour:
                d = [x for x in a[5:] if isinstance(x, Ptr) and self.vkey(x) in h]
                if len(d) < 1:
                    raise AnalysisError('dictionary passed to encodeLogMsgs not understood')
                it.require_ge(t, I, 'dict.before', h['dictEnc'] - h[self.vkey(d[0])],
                              'a message can be encoded before the dictionary entry of its site')
                it.require_ge(t, I, 'dict.progress', h[self.vkey(d[0])] - h['dictEnc'],
                              'messages of sites whose dictionary entries are encoded are held back')
            if self.facet not in ('aio', 'sync'):
                r = it.sym(t, 'r', 0, self.const['staging'])
                if t.p.assume(n - r):
                    outs.append((t, r, 'ret'))
                continue
            for zero in (1, 0):
                u = t.copy()
                r = K(0) if zero else it.sym(u, 'r', 1, self.const['staging'])
                if not zero and not u.p.assume(n - r):
                    continue
                self.grow(it, u, 1)
                if self.facet == 'sync' and h['chk'] and h['pk'] == 'B':
                    u.ghost['chk'] = 2
                u.ghost['eo'] = u.p.norm(u.ghost['eo'] + r)
                outs.append((u, r, 'ret'))
                if self.facet == 'sync' and not zero and h['pk'] == 'B' and u.ghost['m'] == 'st':
                    x = u.copy()
                    x.ghost.update(m='enc', present=0, side=None, wr=0, chk=0, k=K(0), last=K(0), rel=None, pk=None)
                    outs.append((x, r, 'ret'))
        return outs

    def m_dict(self, it, s, I, a):
        g = s.ghost
        self.encoding(it, s, I)
        pos = it.load(s, a[1], ir.ity(32))
        if self.facet != 'dict':
            if self.is_sites(a[2]):
                self.need(it, s, I, 'registrationMutex', 'the list of logging sites is read')
            if self.facet in ('sync', 'aio'):
                self.grow(it, s, 0)
            return [(s, it.sym(s, 'cnt', 0, 1 << 30), 'ret')]
        it.require(s, I, 'dict.start', isinstance(pos, Lin) and s.p.entails_eq(pos - g['dictEnc']),
                   'dictionary entries are skipped or repeated: encoding starts at %r, %r entries are in this file' % (pos, g['dictEnc']))
        k = self.vkey(a[2])
        if k not in g and not self.is_sites(a[2]):
            raise AnalysisError('dictionary passed to encodeNewDictionaryEntries not understood')
        if self.is_sites(a[2]):
            self.need(it, s, I, 'registrationMutex', 'the list of logging sites is read')
        n = g['N'] if self.is_sites(a[2]) else g[k]
        p2 = it.sym(s, 'dict', 0, 1 << 30)
        s.p.assume(p2 - g['dictEnc'])
        if not s.p.assume(n - p2):
            return []
        g['dictEnc'], g['offer'] = p2, 1
        it.store(s, a[1], p2, 4)
        self.grow(it, s, 0)
        return [(s, it.sym(s, 'cnt', 0, 1 << 30), 'ret')]

    def m_bytes(self, it, s, I, a):
        g = s.ghost
        if self.facet not in ('aio', 'sync'):
            return [(s, it.sym(s, 'enc', 0, self.const['output']), 'ret')]
        if self.facet == 'sync':
            if g['m'] == 'st' and g['present']:
                g['k'] = it.sym(s, 'k', 0, 1 << 30)
                if not s.p.assume(g['n'] - g['k'] - 1):
                    return []
            g.update(side=None, wr=0, chk=0, last=K(0), rel=None, pk=None)
        return [(s, g['enc'], 'ret')]

    def m_swap(self, it, s, I, a):
        g = s.ghost
        b = a[1]
        if self.facet == 'aio':
            ok = isinstance(b, Ptr) and b.r in (self.X, self.Y) and s.p.norm(b.o) == K(0)
            it.require(s, I, 'aio.buffer', ok, 'the encoder moves to memory that is not one of the two output buffers')
            it.require(s, I, 'aio.size', isinstance(a[2], Lin) and s.p.entails(K(self.const['output']) - a[2]), 'the encoder is told the buffer is larger than it is')
            it.require(s, I, 'once.lost', g['encsub'] == 1 or s.p.entails_eq(g['enc']), 'encoded messages are dropped: the encoder moves on before they are submitted')
            if not ok:
                return []
            self.buffer_free(it, s, I, b.r, 'the encoder moves to a buffer')
            g['encreg'] = b.r
        elif self.facet == 'sync' and g['m'] == 'enc':
            g['m'] = 'lost'
        g['enc'] = K(0)
        g['encsub'] = 0
        return [(s, None, 'ret')]

    # ------------------------------------------------------------------ vectors of logging sites
    def vkey(self, p):
        if not isinstance(p, Ptr) or not p.o.is_const():
            return 'v?'
        return 'v%d+%d' % (p.r.n, p.o.c)

    def is_sites(self, p):
        return isinstance(p, Ptr) and p.r is self.S and p.o == K(self.f['invocationSites'][0])

    def m_vec(self):
        pass

    def vec(self, op, d):
        def size(it, s, I, p):
            if self.is_sites(p):
                self.need(it, s, I, 'registrationMutex', 'the list of logging sites is read')
                return s.ghost['N']
            k = self.vkey(p)
            if k not in s.ghost:
                raise AnalysisError('vector of sites not understood: %r' % (p,))
            return s.ghost[k]

        E = self.const['infosize']

        def f(it, s, I, a):
            g = s.ghost
            if self.facet != 'dict':
                for x in a:
                    if self.is_sites(x):
                        self.need(it, s, I, 'registrationMutex', 'the list of logging sites is used')
                if op in ('at', 'operator[]', 'operator', 'begin', 'cbegin', 'data', 'end', 'cend', 'back', 'insert'):
                    return [(s, Ptr(self.SITES), 'ret')]
                if op == 'empty':
                    return [(s, it.sym(s, 'empty', 0, 1), 'ret')]
                if op == 'operator=':
                    return [(s, a[0], 'ret')]
                return [(s, it.sym(s, 'N', 0, 1 << 30) if I.ty.k == 'int' else None, 'ret')]
            if op == 'vector':
                src = [x for x in a[1:] if isinstance(x, Ptr) and (self.is_sites(x) or self.vkey(x) in g)]
                g[self.vkey(a[0])] = size(it, s, I, src[0]) if src else K(0)
                return [(s, None, 'ret')]
            if op == '~vector':
                return [(s, None, 'ret')]
            if op == 'operator=':
                g[self.vkey(a[0])] = size(it, s, I, a[1])
                return [(s, a[0], 'ret')]
            if op in ('size', 'empty'):
                n = size(it, s, I, a[0])
                if op == 'size':
                    return [(s, n, 'ret')]
                out = []
                t = s.copy()
                if t.p.assume_eq(n):
                    out.append((t, K(1), 'ret'))
                if s.p.assume(n - 1):
                    out.append((s, K(0), 'ret'))
                return out
            if op in ('at', 'operator[]', 'operator'):
                n = size(it, s, I, a[0])
                out = []
                for t, i in it.as_u(s, a[1], 64):
                    if it.require_ge(t, I, 'dict.bounds', n - i - 1, 'a logging site beyond the end of the list is used'):
                        out.append((t, Ptr(self.SITES, i.scale(E)), 'ret'))
                return out
            if op in ('begin', 'cbegin', 'data'):
                size(it, s, I, a[0])
                return [(s, Ptr(self.SITES), 'ret')]
            if op in ('end', 'cend'):
                return [(s, Ptr(self.SITES, size(it, s, I, a[0]).scale(E)), 'ret')]
            if op == 'back':
                return [(s, Ptr(self.SITES, (size(it, s, I, a[0]) - 1).scale(E)), 'ret')]
            if op in ('push_back', 'emplace_back'):
                return self.site_push(it, s, I, a, size)
            if op in ('reserve',):
                return [(s, None, 'ret')]
            if op in ('clear',):
                if self.is_sites(a[0]):
                    raise AnalysisError('list of sites cleared')
                g[self.vkey(a[0])] = K(0)
                return [(s, None, 'ret')]
            if op in ('insert',) and len(a) == 4:
                n = size(it, s, I, a[0])
                x, y = a[2], a[3]
                good = all(isinstance(z, Ptr) and z.r is self.SITES for z in a[1:])
                if good and s.p.entails_eq(a[1].o - n.scale(E)):
                    it.require(s, I, 'dict.order', s.p.entails_eq(x.o - n.scale(E)), 'the copy of the dictionary differs from the original')
                    d2 = s.p.norm(y.o)
                    if all(k % E == 0 for _, k in d2.t) and d2.c % E == 0:
                        g[self.vkey(a[0])] = Lin(d2.c // E, tuple((q, k // E) for q, k in d2.t))
                        return [(s, a[1], 'ret')]
            raise AnalysisError('use of a vector of sites not understood: %s' % d)
        return f

    def site_push(self, it, s, I, a, size):
        g = s.ghost
        n = size(it, s, I, a[0])
        if self.is_sites(a[0]):
            return self.registered(it, s, I, n)
        x = a[1]
        if not (isinstance(x, Ptr) and x.r is self.SITES):
            raise AnalysisError('element copied into the dictionary not understood: %r' % (x,))
        it.require(s, I, 'dict.order', s.p.entails_eq(x.o - n.scale(self.const['infosize'])),
                   'the background thread\'s copy of the dictionary is not in identifier order')
        g[self.vkey(a[0])] = s.p.norm(n + 1)
        return [(s, None, 'ret')]

    def registered(self, it, s, I, n):
        s.ghost['N'] = s.p.norm(n + 1)
        return [(s, None, 'ret')]

    # ------------------------------------------------------------------ asynchronous I/O
    def finish(self, s, st):
        s.ghost['op'] = st
        return s

    def m_aio_error(self, it, s, I, a):
        op = s.ghost['op']
        if self.facet == 'sync' and s.ghost['m'] == 'sub':
            if op == 'none':
                return [(s.copy(), K(EINPROGRESS), 'ret'), (self.finish(s.copy(), 'ok'), K(0), 'ret'), (self.finish(s, 'err'), K(5), 'ret')]
            return [(s, K(0) if op == 'ok' else K(5), 'ret')]
        if self.facet != 'aio':
            return [(s, it.sym(s, 'aioerr', 0, 200), 'ret')]
        if op == 'prog':
            return [(s.copy(), K(EINPROGRESS), 'ret'), (self.finish(s.copy(), 'ok'), K(0), 'ret'), (self.finish(s, 'err'), K(5), 'ret')]
        return [(s, K(0) if op == 'ok' else K(5) if op in ('err', 'rej') else it.top_int(s, 32, 'aioerr'), 'ret')]

    def m_aio_suspend(self, it, s, I, a):
        op = s.ghost['op']
        if self.facet != 'aio':
            return [(s, it.sym(s, 'suspend', -1, 0), 'ret')]
        if op == 'prog':
            return [(s.copy(), K(-1), 'ret'), (self.finish(s.copy(), 'ok'), K(0), 'ret'), (self.finish(s, 'err'), K(0), 'ret')]
        return [(s, K(0), 'ret')]

    def m_aio_return(self, it, s, I, a):
        g = s.ghost
        if self.facet != 'aio':
            # C04 shows that the write is over at this point and that a rest is written as well
            r = it.sym(s, 'written', -1, self.const['output'])
            if self.facet != 'sync' or g['m'] != 'sub':
                return [(s, r, 'ret')]
            n = it.load(s, Ptr(a[0].r, a[0].o + self.cb['aio_nbytes'][0]), ir.ity(64))
            outs = []
            op, g['op'] = g['op'], 'none'
            t = s.copy()
            if op == 'err':
                self.ended(t)
                return [(t, K(-1), 'ret')]
            if not isinstance(n, Lin):
                return [(t, r, 'ret')]
            # C04 shows that what is submitted is the encoded output
            s.p.assume(n)
            s.p.assume(K(self.const['output']) - n)
            t = s.copy()
            if t.p.assume(r) and t.p.assume(n - r - 1):
                outs.append((t, r, 'ret'))      # a rest is left
            if s.p.assume_eq(r - n):
                self.ended(s)
                outs.append((s, s.p.norm(r), 'ret'))
            return outs
        if not it.require(s, I, 'aio.wait', g['op'] != 'prog', 'the result of a write is taken while the write may still be in progress '
                          '(an interrupted wait is not repeated)'):
            return []
        it.require(s, I, 'aio.reap', g['op'] != 'none', 'the result of a write is taken although none was started')
        if g['op'] != 'ok':
            g.update(op='none', opreg=None, remreg=None)
            return [(s, K(-1), 'ret')]
        outs = []
        t = s.copy()
        t.ghost.update(op='none', opreg=None, remreg=None)
        outs.append((t, g['oplen'], 'ret'))
        r = it.sym(s, 'written', 0, self.const['output'])
        if s.p.assume(g['oplen'] - r - 1):
            off = s.p.norm(g['remoff'] + r)
            s.ghost.update(op='none', remreg=g['opreg'], remoff=off, remlen=s.p.norm(g['oplen'] - r), opreg=None)
            outs.append((s, r, 'ret'))
        return outs

    def m_aio_write(self, it, s, I, a):
        g = s.ghost
        cb = a[0]
        if self.facet != 'aio':
            if self.facet != 'sync' or g['m'] not in ('enc', 'sub'):
                return [(s, it.sym(s, 'aiow', -1, 0), 'ret')]
            t = s.copy()
            self.ended(t)           # the OS refuses to write it
            g['m'] = 'sub'
            return [(t, K(-1), 'ret'), (s, K(0), 'ret')]
        buf = it.load(s, Ptr(cb.r, cb.o + self.cb['aio_buf'][0]), ir.PTR)
        n = it.load(s, Ptr(cb.r, cb.o + self.cb['aio_nbytes'][0]), ir.ity(64))
        fd = it.load(s, Ptr(cb.r, cb.o + self.cb['aio_fildes'][0]), ir.ity(32))
        want = self.cell(s, 'outputFd')
        it.require(s, I, 'file.fd', isinstance(fd, Lin) and isinstance(want, Lin) and s.p.entails_eq(fd - want), 'a write goes to another file than the current log file')
        it.require(s, I, 'aio.one', g['op'] in ('none', 'rej'), 'a write is submitted while another one is outstanding')
        if not (isinstance(buf, Ptr) and isinstance(n, Lin)):
            it.require(s, I, 'once.submit', False, 'what is submitted is not the encoded output')
            return []
        if g['remreg'] is not None:
            cont = it.require(s, I, 'aio.short', buf.r is g['remreg'] and s.p.entails_eq(buf.o - g['remoff']) and s.p.entails_eq(n - g['remlen']),
                              'the rest of a partially completed write is never written')
            if not cont:
                g['remreg'] = None
        else:
            cont = False
        if not cont:
            ok = it.require(s, I, 'once.submit', buf.r is g['encreg'] and s.p.entails_eq(buf.o), 'what is submitted is not the encoder\'s current buffer')
            ok &= it.require(s, I, 'once.submit', s.p.entails_eq(n - g['enc']), 'the number of bytes submitted (%r) is not the number of bytes encoded (%r)' % (s.p.norm(n), g['enc']))
            ok &= it.require(s, I, 'once.submit', not g['encsub'], 'encoded messages are submitted twice')
            if not ok:
                return []
            g['encsub'] = 1
            g['remoff'] = K(0)
        g['remreg'] = None
        t = s.copy()
        t.ghost['op'] = 'rej'
        g.update(op='prog', opreg=buf.r, oplen=s.p.norm(n))
        return [(t, K(-1), 'ret'), (s, K(0), 'ret')]

    # ------------------------------------------------------------------ the background thread
    def run_thread(self):
        mod = self.mod
        fn = mod.find('RuntimeLogger::compressionThreadMain(')
        if len(fn) != 1:
            raise AnalysisError('compressionThreadMain not found')
        it = self.interp()
        it.visited_fns.add(fn[0].name)
        s = self.fresh_state()
        g = s.ghost
        f = self.f
        self.setcell(s, 'compressingBuffer', Ptr(self.X))
        self.setcell(s, 'outputDoubleBuffer', Ptr(self.Y))
        self.setcell(s, 'hasOutstandingOperation', K(0))
        self.setcell(s, 'nextInvocationIndexToBePersisted', K(0))
        self.setcell(s, 'outputFd', it.sym(s, 'fd', 0, (1 << 31) - 1))
        # a sync requested before the thread starts is the tracked one at its first chance
        self.setcell(s, 'syncStatus', K(self.DONE))
        starts = [s]
        outs = []
        self.exits = 0
        for t in starts:
            t.ghost['phase'] = 'bg'
            for s2, v, kind in it.run(fn[0], [Ptr(self.S)], t):
                h = s2.ghost
                I = None
                self.exits += 1
                where = fn[0].blocks[list(fn[0].blocks)[-1]].ins[-1]
                it.require(s2, where, 'lock.exit', h['locks'] == (), 'the background thread ends while holding %s' % ', '.join(h['locks']))
                if kind != 'ret':
                    continue
                if self.facet == 'aio':
                    it.require(s2, where, 'file.exit', h['op'] in ('none', 'rej'), 'the background thread ends while a write is outstanding')
                    it.require(s2, where, 'file.exit', h['remreg'] is None, 'the background thread ends without finishing a partial write')
                    it.require(s2, where, 'file.exit', s2.p.entails_eq(h['enc']), 'the background thread ends with encoded messages that were not submitted')
                    self.drained(it, s2, where)
        return it
