"""C15  shared lists and the sync state are accessed under their locks, without deadlock"""
from sa.absint import AnalysisError
from checks import bgrun

LEVEL = 'proof'
EXPLAIN = ('Every entry point of the runtime (background thread, sync, setLogFile, construction, destruction, buffer allocation, registration, statistics) is executed '
           'abstractly with the set of held mutexes: the list of staging buffers, the list of sites and writes of the sync state happen under their mutex, no mutex '
           'is locked twice, released unheld, held at return or held while waiting for another thread, and the order in which mutexes are nested has no cycle.')
RULES = ['lock.bufferMutex/registrationMutex/condMutex: accesses happen under the lock that guards them', 'lock.double/held/exit: locks are balanced on every path, including exceptions',
         'lock.wait: no mutex other than the one passed is held while waiting', 'lock.order: nesting of mutexes is acyclic']
ASSUME = ['the constructor runs before any other thread; the destructor after the background thread was joined',
          'reads of the sync state outside condMutex are only hints that are checked again under it (see C03)']
RUNS = ['thread', 'sync', 'setfile', 'ctor', 'dtor', 'ensure', 'exit', 'register', 'hist', 'stats', 'level']


def cycle(edges):
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)
    for a in g:
        todo, seen = [(a, (a,))], set()
        while todo:
            x, path = todo.pop()
            for y in g.get(x, ()):
                if y == a:
                    return path + (a,)
                if y not in seen:
                    seen.add(y)
                    todo.append((y, path + (y,)))
    return None


def run(res, tier):
    res.rules += RULES
    res.assumptions += ASSUME
    for fl, asserts in bgrun.builds(tier):
        mod = bgrun.module(fl, asserts)
        edges = {}
        for b in bgrun.drive(res, mod, 'lock', RUNS, ('lock.',), fl):
            edges.update(b.edges)
        c = cycle(edges)
        at = edges[(c[0], c[1])] if c else 'runtime/RuntimeLogger.cc'
        res.require('lock.order', c is None, at.split(' in ')[0], at.split(' in ')[-1], 'mutexes are nested in a cycle: %s' % ' -> '.join(c or ()))
        res.count('nested_pairs', len(edges))
    res.floor('lock obligations', sum(a for a, b in res.oblig.values()), 60)
