"""C07  level filter"""
from sa import build
from checks import front

LEVEL = 'proof'
EXPLAIN = 'Each witness statement is executed abstractly with a symbolic current level; on every path with a recorded message the level is at least the severity, on every path without one it is below and nothing else happened. setLogLevel is executed with an arbitrary 32-bit value.'

RULES = ['level.recorded / level.suppressed: recorded <=> severity <= current level', 'level.suppressed: a suppressed statement evaluates no argument, registers nothing, stages nothing', 'front.eval-once: arguments of a recorded statement are evaluated once', 'level.clamp: setLogLevel stores the value clamped to the valid range', 'level.writers: nothing else stores the level']
ASSUME = [
    'one witness statement per argument type list: every scalar type alone, every pair and selected longer lists of representative kinds',
    'pack/unpack behave as decided by C09; staging buffer reserve/publish as decided by C01',
    'strings up to 1 MiB; string arguments are valid pointers and do not change during the call',
]


def run(res, tier):
    res.rules += RULES
    res.assumptions += ASSUME
    st = front.statements(tier)
    text, meta = front.emit(st)
    meta = list(enumerate(meta))
    for asserts in (False, True):
        mod = build.compile_ir(None, 'cpp17', asserts, text=text, name='front.cc')
        F = front.Front(mod)
        F.set_level(res)
        F.level_writers(res)
        F.go(res, meta if not asserts or tier != 'quick' else meta[::4], ('level.', 'front.eval-once'))
