"""The functions other threads call on the logger: sync(), setLogFile(), construction and destruction, allocation and
release of staging buffers, registration of log sites.  Each is executed abstractly on its own; the background thread and
other callers are an arbitrary environment that acts whenever the locks allow it."""
import re
from sa import ir
from sa.absint import Ptr, Region, AnalysisError, fresh, NULLR
from sa.poly import K, Lin, var
from checks.bg import Bg, SRC as BGSRC, O_APPEND, O_TRUNC

SRC = BGSRC + r'''
extern "C" {
void __sa_register(int *id, NanoLogInternal::StaticLogInfo *i) { NanoLogInternal::RuntimeLogger::registerInvocationSite(*i, *id); }
void __sa_ensure() { NanoLogInternal::RuntimeLogger::preallocate(); }
void __sa_sync() { NanoLog::sync(); }
void __sa_file(const char *f) { NanoLog::setLogFile(f); }
char *__sa_reserve(unsigned long n) { return NanoLogInternal::RuntimeLogger::reserveAlloc(n); }
bool __sa_cand(NanoLogInternal::RuntimeLogger::StagingBuffer *b) { return b->checkCanDelete(); }
void __sa_exit(NanoLogInternal::RuntimeLogger::StagingBufferDestroyer *d) { d->NanoLogInternal::RuntimeLogger::StagingBufferDestroyer::~StagingBufferDestroyer(); }
std::string __sa_stats() { return NanoLog::getStats(); }
std::string __sa_hist() { return NanoLogInternal::RuntimeLogger::getHistograms(); }
void __sa_level(NanoLog::LogLevel l) { NanoLog::setLogLevel(l); }
}
'''
PURE = re.compile(r'^(?:std::(?:__cxx11::)?basic_(?:string|ostringstream|stringstream|ostream|ios|stringbuf)\b|std::operator<<|std::operator\+|'
                  r'std::ios_base|std::condition_variable::~?condition_variable|std::(?:__cxx11::)?to_string|std::ostream|std::allocator|std::__cxx11::basic_string|'
                  r'std::basic_ostream|operator delete|std::exception|std::system_error|std::error_|std::runtime_error|'
                  r'(?:std::)?__throw_|PerfUtils::Cycles::|std::thread::_State|std::__iostream_category|std::_V2::)')


class Calls(Bg):
    def interp(self):
        it = Bg.interp(self)
        it.keep_unwind = True
        self.tls = it.region_of_global(self.one_global(r'RuntimeLogger13stagingBufferE$'))
        self.NEWB = Region('new staging buffer', None, 'heap')
        M = it.models
        for n in list(self.mod.fns) + list(self.mod.decls):
            d = self.mod.demangle(n)
            if PURE.match(d) or PURE.match(re.sub(r'^[\w:<>*& ]*? (?=std::)', '', d)):
                M[n] = self.m_opaque
            for pat, f in ((r'\bStagingBuffer::StagingBuffer\(', self.m_built),
                           (r'^std::vector<NanoLogInternal::RuntimeLogger::StagingBuffer\*, [^(]*>::(?:push_back|emplace_back)[<(]|^[^(]*std::vector<NanoLogInternal::RuntimeLogger::StagingBuffer\*, [^(]*>::emplace_back<', self.m_push),
                           (r'^std::thread::thread<', self.m_thread),
                           (r'^std::thread::operator=\(std::thread&&\)', self.m_thread_assign),
                           (r'^std::thread::joinable\(', self.m_joinable),
                           (r'^std::thread::join\(', self.m_join),
                           (r'^std::thread::(?:~thread|thread)\(', self.m_void),
                           (r'^NanoLogInternal::RuntimeLogger::sync\(', self.m_sync)):
                if re.search(pat, d):
                    M[n] = f
        for n, f in (('access', self.m_access), ('open', self.m_open), ('open64', self.m_open), ('close', self.m_close),
                     ('posix_memalign', self.m_memalign), ('exit', self.m_exit), ('_ZSt4exiti', self.m_exit), ('free', self.m_free),
                     ('__cxa_throw', self.m_throw), ('__cxa_allocate_exception', self.m_alloc_exc), ('__cxa_free_exception', self.m_opaque),
                     ('_Znwm', self.m_new), ('_ZdlPv', self.m_opaque), ('_ZdlPvm', self.m_opaque), ('__cxa_thread_atexit', self.m_opaque),
                     ('sched_getcpu', self.m_pure), ('fopen', self.m_opaque), ('ftruncate', self.m_truncate), ('truncate', self.m_truncate)):
            M[n] = f
        return it

    def one_global(self, pat):
        g = [n for n in self.mod.globals if re.search(pat, n)]
        if len(g) != 1:
            raise AnalysisError('global %s not found' % pat)
        return g[0]

    def fresh_state(self):
        s = Bg.fresh_state(self)
        s.ghost.update(req=0, synced=0, stop=0, joined=0, closed=0, started=0, newfd=None, oldfd=None, built=None, pushed=0, nid=None, taken=None,
                       newbuf=None, flags=0, registered=0, idset=None, sd=None, pp=(), retired=0, freedbufs=())
        return s

    KEY = ('has', 'locks', 'req', 'synced', 'stop', 'joined', 'closed', 'started', 'newfd', 'pushed', 'taken', 'nid', 'built', 'registered', 'sd', 'pp', 'retired',
           'freedbufs')

    def merge_key(self, it, s):
        return Bg.merge_key(self, it, s) + tuple(repr(s.ghost.get(k)) for k in self.KEY)

    # ------------------------------------------------------------------ models
    def m_void(self, it, s, I, a):
        return [(s, None, 'ret')]

    def m_opaque(self, it, s, I, a):
        r = I.ty.k != 'void' and (a[0] if I.ty.k == 'ptr' and a and isinstance(a[0], Ptr) else it.top(s, I.ty, 'any')) or None
        return [(s, r, 'ret')]

    def m_throw(self, it, s, I, a):
        return [(s, None, 'unwind')]

    def m_alloc_exc(self, it, s, I, a):
        return [(s, Ptr(Region('exception', None, 'heap')), 'ret')]

    def m_exit(self, it, s, I, a):
        return []

    def m_new(self, it, s, I, a):
        s.ghost['newbuf'] = self.NEWB
        return [(s, Ptr(self.NEWB), 'ret')]

    def m_truncate(self, it, s, I, a):
        it.require(s, I, 'file.append', False, 'an existing log file is truncated')
        return [(s, K(0), 'ret')]

    def m_built(self, it, s, I, a):
        g = s.ghost
        x = a[1] if len(a) > 1 else None
        it.require(s, I, 'id.unique', g['taken'] is not None and isinstance(x, Lin) and s.p.entails_eq(x - g['taken']),
                   'a staging buffer is created with an id that was not reserved under bufferMutex')
        g['taken'] = None
        g['built'] = a[0].r if isinstance(a[0], Ptr) else None
        return [(s, None, 'ret')]

    def m_push(self, it, s, I, a):
        g = s.ghost
        self.need(it, s, I, 'bufferMutex', 'the list of staging buffers is changed')
        v = it.load(s, a[1], ir.PTR)
        it.require(s, I, 'list.push', isinstance(v, Ptr) and v.r is g['built'] and g['built'] is not None and not g['pushed'],
                   'what is added to the list of staging buffers is not the buffer just created, or it is added twice')
        g['pushed'] += 1
        return [(s, None if I.ty.k == 'void' else it.top(s, I.ty, 'ref'), 'ret')]

    def env(self, it, s, I, n):
        g = s.ghost
        if n == 'bufferMutex':
            g['nid'] = None
        if n == 'registrationMutex' and g['phase'] == 'reg' and not g['has']:
            # another thread may have registered the same site before the lock was granted
            t = s.copy()
            v = it.sym(t, 'id', 0, 1 << 30)
            it.store(t, Ptr(self.ID), v, 4)
            t.ghost.update(has=1, id0=v)
            return [s, t]
        return Bg.env(self, it, s, I, n)

    def on_load(self, it, s, I, p, ty):
        g = s.ghost
        if isinstance(p, Ptr):
            o = s.p.norm(p.o)
            if p.r is self.S and o.is_const():
                f = self.f
                if o.c == f['nextBufferId'][0]:
                    self.need(it, s, I, 'bufferMutex', 'the next buffer id is read')
                    if g['nid'] is None:
                        g['nid'] = it.sym(s, 'nid', 0, (1 << 32) - 2)
                    return [(s, g['nid'])]
                if o.c == f['syncStatus'][0] and g['phase'] == 'sync':
                    if 'condMutex' not in g['locks']:
                        self.setcell(s, 'syncStatus', it.sym(s, 'status', 0, 3))
                    return [(s, self.cell0(it, s, p, ty))]
                if o.c in (f['outputFd'][0], f['hasOutstandingOperation'][0], f['compressingBuffer'][0], f['outputDoubleBuffer'][0],
                           f['nextInvocationIndexToBePersisted'][0]) and g['phase'] in ('set', 'init', 'dtor'):
                    return None
            if p.r is self.B and g['phase'] == 'exit':
                it.require(s, I, 'life.handover', not g['retired'], 'a thread uses its staging buffer after giving it up for deletion')
            if p.r is self.B and g['phase'] == 'cand' and o.is_const():
                sb = self.mod.fields('StagingBuffer')
                if o.c == sb['shouldDeallocate'][0]:
                    if g['sd'] is None or not s.p.entails_eq(g['sd'] - 1):
                        g['sd'] = it.sym(s, 'sd', 0, 1)
                    return [(s, g['sd'])]
                if o.c == sb['producerPos'][0]:
                    x = it.sym(s, 'pp', 0, self.const['staging'])
                    known = g['sd'] is not None and s.p.entails_eq(g['sd'] - 1)
                    if known and g['pp']:
                        x = g['pp'][0]          # the owner is gone: it no longer changes
                    elif known:
                        g['pp'] = (x,)
                    return [(s, Ptr(self.MB, x))]
                if o.c == sb['consumerPos'][0]:
                    if g.get('cp') is None:
                        g['cp'] = it.sym(s, 'cp', 0, self.const['staging'])
                    return [(s, Ptr(self.MB, g['cp']))]
        return Bg.on_load(self, it, s, I, p, ty)

    def cell0(self, it, s, p, ty):
        h, it.on_load = it.on_load, None
        try:
            return it.load(s, p, ty)
        finally:
            it.on_load = h

    def on_store(self, it, s, I, p, v, size):
        g = s.ghost
        if isinstance(p, Ptr):
            o = s.p.norm(p.o)
            f = self.f
            if p.r is self.S and o.is_const():
                if o.c == f['nextBufferId'][0] and g['phase'] != 'init':
                    self.need(it, s, I, 'bufferMutex', 'the next buffer id is changed')
                    ok = g['nid'] is not None and isinstance(v, Lin) and s.p.entails_eq(v - g['nid'] - 1)
                    it.require(s, I, 'id.unique', ok, 'the next buffer id is not the one just taken plus one')
                    g['taken'], g['nid'] = g['nid'], None
                    return [s]
                if o.c == f['compressionThreadShouldExit'][0]:
                    if g['phase'] in ('set', 'dtor') and isinstance(v, Lin):
                        if s.p.norm(v) == K(1):
                            it.require(s, I, 'file.sync-first', g['synced'] == 1, 'the background thread is stopped before staged messages are written')
                            g['stop'] = 1
                        else:
                            it.require(s, I, 'file.stop', g['joined'] == 1 or not g['stop'], 'the request to stop is withdrawn before the background thread ended')
                            g['stop'] = 0
                    return None
                if o.c in (f['outputFd'][0], f['nextInvocationIndexToBePersisted'][0], f['compressingBuffer'][0], f['outputDoubleBuffer'][0],
                           f['hasOutstandingOperation'][0]) and g['phase'] in ('set', 'dtor'):
                    it.require(s, I, 'file.quiescent', g['joined'] == 1 and not g['started'],
                               'state of the background thread is changed while it may be running')
                    return None
            if p.r is self.B and g['phase'] == 'exit':
                sb = self.mod.fields('StagingBuffer')
                it.require(s, I, 'life.handover', not g['retired'], 'a thread uses its staging buffer after giving it up for deletion')
                if o.is_const() and o.c == sb['shouldDeallocate'][0] and isinstance(v, Lin) and s.p.entails_eq(v - 1):
                    g['retired'] = 1
                return [s]
            if g['phase'] == 'reg' and p.r is self.ID:
                it.require(s, I, 'dict.once', 'registrationMutex' in g['locks'], 'the identifier of a log site is assigned without holding registrationMutex')
            if p.r is self.tls and g['phase'] == 'ensure' and isinstance(v, Ptr) and v.r is not NULLR:
                it.require(s, I, 'list.push', v.r is g['newbuf'], 'a thread adopts a staging buffer it did not create')
        return Bg.on_store(self, it, s, I, p, v, size)

    def sync_store(self, it, s, I, v):
        g = s.ghost
        if g['phase'] == 'sync':
            ok = isinstance(v, Lin) and s.p.entails_eq(v - self.REQ)
            it.require(s, I, 'sync.request', ok, 'sync() sets the sync state to something else than a request')
            g['req'] = 1
        return None

    def on_status(self, s):
        return s

    def wait_env(self, it, s, I, n, cv):
        g = s.ghost
        if g['phase'] == 'sync':
            it.require(s, I, 'sync.request', g['req'] == 1, 'sync() waits before it requested a sync')
            self.setcell(s, 'syncStatus', it.sym(s, 'status', 0, 3))
        return [s]

    def m_lock(self, it, s, I, a):
        g = s.ghost
        if self.mutex(s, a[0]) == 'condMutex' and g['phase'] == 'sync':
            self.setcell(s, 'syncStatus', it.sym(s, 'status', 0, 3))
        return Bg.m_lock(self, it, s, I, a)

    # files and threads
    def m_access(self, it, s, I, a):
        return [(s, it.sym(s, 'access', -1, 0), 'ret')]

    def m_open(self, it, s, I, a):
        g = s.ghost
        fl = a[1]
        ok = isinstance(fl, Lin) and s.p.norm(fl).is_const()
        fl = s.p.norm(fl).c if ok else 0
        it.require(s, I, 'file.append', ok and fl & O_APPEND and not fl & O_TRUNC, 'the log file is opened so that existing content can be overwritten')
        it.require(s, I, 'file.append', fl & 3 in (1, 2) and fl & 0o100, 'the log file is not opened for writing, or not created when missing')
        fd = it.sym(s, 'newfd', -1, (1 << 31) - 1)
        g['newfd'] = fd
        return [(s, fd, 'ret')]

    def m_close(self, it, s, I, a):
        g = s.ghost
        old = g['oldfd']
        if old is not None and s.p.entails_eq(a[0] - old):
            it.require(s, I, 'file.close', g['joined'] == 1 and not g['started'], 'the log file is closed while the background thread may write to it')
            it.require(s, I, 'file.close', not g['closed'], 'the log file is closed twice')
            g['closed'] = 1
        elif g['newfd'] is not None and s.p.entails_eq(a[0] - g['newfd']):
            g['newfd'] = None
        else:
            it.require(s, I, 'file.close', False, 'a file descriptor is closed that is not the log file')
        return [(s, it.sym(s, 'close', -1, 0), 'ret')]

    def m_memalign(self, it, s, I, a):
        t = s.copy()
        r = Region('output buffer', None, 'heap')
        s.ghost['bufs'] = s.ghost.get('bufs', ()) + ((r, a[2]),)
        it.store(s, a[0], Ptr(r), 8)
        return [(s, K(0), 'ret'), (t, K(12), 'ret')]

    def m_free(self, it, s, I, a):
        g = s.ghost
        if isinstance(a[0], Ptr) and a[0].r in (self.X, self.Y):
            it.require(s, I, 'file.free', g['joined'] == 1 and not g['started'], 'an output buffer is freed while the background thread may use it')
            it.require(s, I, 'file.free', a[0].r not in g['freedbufs'], 'an output buffer is freed twice')
            g['freedbufs'] += (a[0].r,)
        return [(s, None, 'ret')]

    def m_sync(self, it, s, I, a):
        g = s.ghost
        if g['phase'] == 'sync':
            return None
        it.require(s, I, 'lock.double', 'condMutex' not in g['locks'], 'sync() is called while holding condMutex')
        it.require(s, I, 'lock.wait', not g['locks'], 'sync() is called while holding %s' % ', '.join(g['locks']))
        it.require(s, I, 'file.sync', not g['joined'] or g['started'], 'sync() is called while no background thread runs: it never returns')
        if not g['stop']:
            g['synced'] = 1
        return [(s, None, 'ret')]

    def is_thread(self, p, s):
        return isinstance(p, Ptr) and p.r is self.S and s.p.norm(p.o) == K(self.f['compressionThread'][0])

    def m_joinable(self, it, s, I, a):
        g = s.ghost
        if not self.is_thread(a[0], s):
            return [(s, it.sym(s, 'joinable', 0, 1), 'ret')]
        if g['started']:
            return [(s, K(1), 'ret')]
        if g['joined']:
            return [(s, K(0), 'ret')]
        return [(s, K(1), 'ret')]       # the constructor started it, and setLogFile() always starts another one

    def m_join(self, it, s, I, a):
        g = s.ghost
        if not self.is_thread(a[0], s):
            return [(s, None, 'ret')]
        it.require(s, I, 'file.stop', g['stop'] == 1, 'the background thread is joined although it was not told to stop')
        it.require(s, I, 'lock.wait', not g['locks'], 'the background thread is joined while holding %s' % ', '.join(g['locks']))
        g['joined'] = 1
        self.setcell(s, 'hasOutstandingOperation', K(0))
        return [(s, None, 'ret')]

    def m_thread(self, it, s, I, a):
        # the thread runs from here on
        g = s.ghost
        what = 'the background thread is started '
        if g['phase'] == 'set':
            it.require(s, I, 'file.start', g['joined'] == 1 and not g['started'], what + 'while the old one may be running')
            it.require(s, I, 'file.start', g['closed'] == 1 or s.p.entails(-g['oldfd']), what + 'without closing the old log file')
        for n in ('compressionThreadShouldExit', 'hasOutstandingOperation', 'nextInvocationIndexToBePersisted'):
            v = self.cell1(it, s, n)
            it.require(s, I, 'file.start', isinstance(v, Lin) and s.p.entails_eq(v), what + 'with %s not reset' % n)
        fd = self.cell1(it, s, 'outputFd')
        it.require(s, I, 'file.start', isinstance(fd, Lin) and g['newfd'] is not None and s.p.entails_eq(fd - g['newfd']) and s.p.entails(fd),
                   what + 'but not on the file that was opened')
        bufs = [self.cell1(it, s, n) for n in ('compressingBuffer', 'outputDoubleBuffer')]
        sizes = dict((r, z) for r, z in g.get('bufs', ()))
        sizes.setdefault(self.X, K(self.const['output']))
        sizes.setdefault(self.Y, K(self.const['output']))
        ok = all(isinstance(b, Ptr) and b.r in sizes and s.p.entails_eq(b.o) and s.p.entails(sizes[b.r] - self.const['output']) for b in bufs)
        it.require(s, I, 'file.start', ok and bufs[0].r is not bufs[1].r, what + 'without two output buffers of full size')
        g['started'] = 1
        return [(s, None, 'ret')]

    def cell1(self, it, s, n):
        h, it.on_load = it.on_load, None
        try:
            return self.cell(s, n)
        finally:
            it.on_load = h

    def m_thread_assign(self, it, s, I, a):
        it.require(s, I, 'file.start', s.ghost['joined'] == 1 or s.ghost['phase'] == 'init', 'a running thread is replaced: the program terminates')
        return [(s, a[0], 'ret')]

    # ------------------------------------------------------------------ log sites
    def registered(self, it, s, I, n):
        g = s.ghost
        self.need(it, s, I, 'registrationMutex', 'a log site is added')
        g['regat'] = n
        g['registered'] += 1
        g['N'] = s.p.norm(n + 1)
        return [(s, None, 'ret')]

    # ------------------------------------------------------------------ runs
    def last(self, fn):
        return fn.blocks[list(fn.blocks)[-1]].ins[-1]

    def go(self, name, phase, args, prepare=None):
        """abstract execution of one entry point; [(state, value, kind)]"""
        fn = [f for n, f in self.mod.fns.items() if n == name or self.mod.demangle(n).startswith(name)]
        if len(fn) < 1:
            raise AnalysisError('%s not found' % name)
        fn = fn[0]
        it = self.interp()
        it.visited_fns.add(fn.name)
        s = self.fresh_state()
        s.ghost['phase'] = phase
        if phase != 'init':
            self.setcell(s, 'compressingBuffer', Ptr(self.X))
            self.setcell(s, 'outputDoubleBuffer', Ptr(self.Y))
            s.ghost['oldfd'] = it.sym(s, 'fd', -1, (1 << 31) - 1)
            it.on_store, h = None, it.on_store
            self.setcell(s, 'outputFd', s.ghost['oldfd'])
            self.setcell(s, 'nextInvocationIndexToBePersisted', it.sym(s, 'next', 0, 1 << 30))
            self.setcell(s, 'hasOutstandingOperation', it.sym(s, 'out', 0, 1))
            self.setcell(s, 'compressionThreadShouldExit', K(0))
            it.on_store = h
        if prepare:
            args = prepare(it, s)
        self.where_ = self.last(fn)
        outs = it.run(fn, args, s)
        for s2, v, kind in outs:
            it.require(s2, self.where_, 'lock.exit', s2.ghost['locks'] == (), '%s ends while holding %s' % (name, ', '.join(s2.ghost['locks'])))
        self.outs = outs
        return it

    def run_sync(self):
        it = self.go('__sa_sync', 'sync', [])
        n = 0
        for s, v, kind in self.outs:
            if kind != 'ret':
                continue
            n += 1
            st = self.cell1(it, s, 'syncStatus')
            it.require(s, self.where_, 'sync.return', s.ghost['req'] == 1, 'sync() returns without having requested a sync')
            it.require(s, self.where_, 'sync.return', isinstance(st, Lin) and s.p.entails_eq(st - self.DONE),
                       'sync() can return before the sync state says it is complete (a wake-up alone proves nothing)')
        if not n:
            raise AnalysisError('sync() never returns')
        return it

    def run_setfile(self):
        def prep(it, s):
            r = Region('file name', None, 'heap')
            return [Ptr(r)]
        it = self.go('__sa_file', 'set', [], prep)
        ok = 0
        for s, v, kind in self.outs:
            g = s.ghost
            if kind == 'ret':
                ok += 1
                it.require(s, self.where_, 'file.switch', g['started'] == 1, 'setLogFile() returns without a background thread on the new file')
            else:
                it.require(s, self.where_, 'file.reject', not g['joined'] and not g['stop'] and not g['closed'] and not g['started'],
                           'setLogFile() throws after it disturbed the logger')
                it.require(s, self.where_, 'file.reject', g['newfd'] is None or s.p.entails(-g['newfd'] - 1), 'setLogFile() throws and leaks the new file')
                for n, want in (('outputFd', g['oldfd']),):
                    x = self.cell1(it, s, n)
                    it.require(s, self.where_, 'file.reject', isinstance(x, Lin) and s.p.entails_eq(x - want), 'setLogFile() throws although %s was changed' % n)
        if not ok or ok == len(self.outs):
            raise AnalysisError('setLogFile(): %d of %d paths return normally' % (ok, len(self.outs)))
        return it

    def run_ctor(self):
        def prep(it, s):
            for n, (o, z, _) in self.f.items():
                if z in (1, 2, 4, 8) and n not in ('compressingBuffer', 'outputDoubleBuffer'):
                    it.store(s, Ptr(self.S, K(o)), it.top_int(s, 8 * z, 'raw'), z)
            return [Ptr(self.S)]
        it = self.go('NanoLogInternal::RuntimeLogger::RuntimeLogger(', 'init', [], prep)
        for s, v, kind in self.outs:
            it.require(s, self.where_, 'file.start', kind != 'ret' or s.ghost['started'] == 1, 'the logger is constructed without a background thread')
        return it

    def run_dtor(self):
        it = self.go('NanoLogInternal::RuntimeLogger::~RuntimeLogger(', 'dtor', [], lambda it, s: [Ptr(self.S)])
        for s, v, kind in self.outs:
            g = s.ghost
            it.require(s, self.where_, 'file.flush', g['synced'] == 1 and g['joined'] == 1, 'the program ends without writing the staged messages and stopping the background thread')
        return it

    def run_ensure(self):
        its = []
        for name, mk in (('__sa_ensure', lambda it, s: []), ('__sa_reserve', lambda it, s: [it.sym(s, 'nbytes', 1, self.const['staging'] - 1)])):
            for has in (0, 1):
                def prep(it, s):
                    it.store(s, Ptr(self.tls), Ptr(self.B) if has else Ptr(NULLR), 8)
                    s.ghost['has'] = has
                    for n in list(self.mod.fns):
                        if re.search(r'StagingBuffer::reserveProducerSpace\(', self.mod.demangle(n)):
                            it.models[n] = lambda it, s, I, a: [(s, it.top(s, I.ty, 'space'), 'ret')]
                    return mk(it, s)
                it = self.go(name, 'ensure', [], prep)
                for s, v, kind in self.outs:
                    if kind != 'ret':
                        continue
                    t = self.it.load(s, Ptr(self.tls), ir.PTR)
                    want = self.B if has else self.NEWB
                    it.require(s, self.where_, 'list.push', isinstance(t, Ptr) and t.r is want, 'a thread ends up without its own staging buffer')
                    it.require(s, self.where_, 'list.push', s.ghost['pushed'] == (0 if has else 1), 'the staging buffer of a thread is not added to the list exactly once')
                its.append(it)
        return its

    def run_exit(self):
        its = []
        for has in (0, 1):
            def prep(it, s):
                it.store(s, Ptr(self.tls), Ptr(self.B) if has else Ptr(NULLR), 8)
                return [Ptr(Region('destroyer', None, 'heap'))]
            it = self.go('__sa_exit', 'exit', [], prep)
            for s, v, kind in self.outs:
                t = self.it.load(s, Ptr(self.tls), ir.PTR)
                it.require(s, self.where_, 'life.handover', isinstance(t, Ptr) and t.r is NULLR, 'a thread keeps a pointer to a staging buffer it gave up')
                it.require(s, self.where_, 'life.handover', s.ghost['retired'] == has, 'a thread ends without giving up its staging buffer')
            its.append(it)
        return its

    def run_cand(self):
        def prep(it, s):
            for n in list(it.models):
                if it.models[n] == self.m_candelete:
                    del it.models[n]
            return [Ptr(self.B)]
        it = self.go('__sa_cand', 'cand', [], prep)
        yes = 0
        for s, v, kind in self.outs:
            if kind != 'ret':
                continue
            for t in [s.copy()]:
                t = [x for x, bit in it.split_bool(t, it.coerce(t, v, ir.ity(1))) if bit]
                if not t:
                    continue
                t = t[0]
                yes += 1
                g = t.ghost
                it.require(t, self.where_, 'life.retired', g['sd'] is not None and t.p.entails_eq(g['sd'] - 1), 'a buffer can be deleted although its owner did not give it up')
                it.require(t, self.where_, 'life.drained', bool(g['pp']) and g.get('cp') is not None and t.p.entails_eq(g['pp'][0] - g['cp']),
                           'a buffer can be deleted although messages are left in it: the producer position compared was read before the owner was known to be gone')
        if not yes:
            raise AnalysisError('checkCanDelete() never says yes')
        return it

    def run_register(self):
        its = []
        for has in (0, 1):
            ID = self.ID = Region('log id', 4, 'heap')
            INFO = Region('site', None, 'heap')

            def prep(it, s):
                it.store(s, Ptr(ID), it.sym(s, 'id', 0, 1 << 30) if has else K(-1), 4)
                s.ghost.update(id0=it.load(s, Ptr(ID), ir.ity(32)), has=has)
                return [Ptr(ID), Ptr(INFO)]
            it = self.go('__sa_register', 'reg', [], prep)
            for s, v, kind in self.outs:
                if kind != 'ret':
                    continue
                x = it.load(s, Ptr(ID), ir.ity(32))
                if s.ghost['has']:
                    it.require(s, self.where_, 'dict.once', s.ghost['registered'] == 0, 'a log site is registered twice')
                    it.require(s, self.where_, 'dict.once', isinstance(x, Lin) and s.p.entails_eq(x - s.ghost['id0']), 'the identifier of a registered site changes')
                else:
                    ok = s.ghost['registered'] == 1 and isinstance(x, Lin) and s.p.entails_eq(x - s.ghost['regat'])
                    it.require(s, self.where_, 'dict.id', ok, 'the identifier of a log site is not its position in the dictionary')
            its.append(it)
        return its

    def run_simple(self, name, args=None):
        return self.go(name, 'call', [], args or (lambda it, s: []))
