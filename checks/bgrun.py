"""runs the thread-level analyses and hands each property the obligations of its own rules"""
from sa import build, ir
from sa.absint import Ptr, Region
from checks import bgcalls


class Only:
    """the part of an interpreter's results that belongs to the given rules"""

    def __init__(self, it, prefixes):
        ok = lambda k: any(k.startswith(p) for p in prefixes)
        self.oblig = {k: v for k, v in it.oblig.items() if ok(k)}
        self.violations = [v for v in it.violations if ok(v['rule'])]
        self.unknowns = [u for u in it.unknowns if ok(u['rule'])]
        self.visited_fns, self.steps, self.call_sites = it.visited_fns, it.steps, it.call_sites


def module(flavour, asserts):
    return build.compile_ir(None, flavour, asserts, text=bgcalls.SRC, name='bg.cc')


def string_arg(it, s):
    return [Ptr(Region('result', 32, 'heap'))]


CALLS = {
    'sync': lambda b: b.run_sync(), 'setfile': lambda b: b.run_setfile(), 'ctor': lambda b: b.run_ctor(), 'dtor': lambda b: b.run_dtor(),
    'ensure': lambda b: b.run_ensure(), 'exit': lambda b: b.run_exit(), 'cand': lambda b: b.run_cand(), 'register': lambda b: b.run_register(),
    'thread': lambda b: b.run_thread(),
    'hist': lambda b: b.run_simple('__sa_hist', string_arg), 'stats': lambda b: b.run_simple('__sa_stats', string_arg),
    'level': lambda b: b.run_simple('__sa_level', lambda it, s: [it.sym(s, 'level', 0, 255)]),
    'file': lambda b: b.run_setfile(),
}


def drive(res, mod, facet, runs, prefixes, flavour):
    """-> the analyses, for what spans several of them"""
    out = []
    for name in runs:
        b = (bgcalls.Bg if name == 'thread' else bgcalls.Calls)(mod, facet)
        b.flavour = flavour
        its = ()
        try:
            its = CALLS[name](b)
        finally:
            its = its if isinstance(its, list) else [its or b.it]
            for it in its:
                res.absorb(Only(it, prefixes))
        res.count('entry_points_%s' % flavour)
        res.samples.append('%s (%s): %d abstract steps' % (name, facet, sum(x.steps for x in its)))
        out.append(b)
    return out


def builds(tier, asserts_quick=False):
    if tier == 'quick':
        return [('cpp17', False)]
    return [('cpp17', False), ('cpp17', True), ('pre', False)]
