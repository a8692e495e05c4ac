"""C12  C++17 front end: size, store and compress of arguments agree"""
from sa import build
from checks import front

LEVEL = 'proof'
EXPLAIN = 'Each witness statement is executed abstractly: the bytes staged by the logging call are the input of the compression function registered for that statement, whose output is read back the way the decoder reads it; every argument must come back with its value and every byte must be accounted for.'

RULES = ['args.consumed: compression consumes exactly the staged entry', 'args.bound: compressed size at most twice the staged argument bytes', 'args.value/string/nibble: decoded argument = logged argument', 'args.position/overwrite/out: packed values do not overlap and stay in the buffer', 'args.length: decoding ends where compression ended']
ASSUME = [
    'one witness statement per argument type list: every scalar type alone, every pair and selected longer lists of representative kinds',
    'pack/unpack behave as decided by C09; staging buffer reserve/publish as decided by C01',
    'strings up to 1 MiB; string arguments are valid pointers and do not change during the call',
]


def run(res, tier):
    res.rules += RULES
    res.assumptions += ASSUME
    st = front.statements(tier)
    text, meta = front.emit(st)
    meta = list(enumerate(meta))
    for asserts in (False, True):
        mod = build.compile_ir(None, 'cpp17', asserts, text=text, name='front.cc')
        F = front.Front(mod)
        F.go(res, meta if not asserts or tier != 'quick' else meta[::4], ('args.', 'front.assert', 'front.shared'))
