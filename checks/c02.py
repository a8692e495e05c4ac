"""C02  a message is complete when it becomes visible"""
from sa import build
from checks import front

LEVEL = 'proof'
EXPLAIN = 'Each witness statement is executed abstractly with symbolic argument values; at every publication of staged bytes the abstract memory of the reserved region must have been written completely, inside the reservation, with the recorded size, and nothing may be written afterwards.'

RULES = ['front.pairing: exactly one publication per reservation, in order', 'front.same-size: bytes reserved = bytes published = recorded entry size', 'front.complete: every byte of the entry is written before it is published', 'front.in-bounds: no write outside the reservation', 'front.after-publish: no write to the entry after publication', 'front.header: id, timestamp and size are those of the call', 'front.register: site fields describe the statement, registered before first use']
ASSUME = [
    'one witness statement per argument type list: every scalar type alone, every pair and selected longer lists of representative kinds',
    'pack/unpack behave as decided by C09; staging buffer reserve/publish as decided by C01',
    'strings up to 1 MiB; string arguments are valid pointers and do not change during the call',
]


def run(res, tier):
    res.rules += RULES
    res.assumptions += ASSUME
    st = front.statements(tier)
    text, meta = front.emit(st)
    meta = list(enumerate(meta))
    for asserts in (False, True):
        mod = build.compile_ir(None, 'cpp17', asserts, text=text, name='front.cc')
        F = front.Front(mod)
        F.go(res, meta if not asserts or tier != 'quick' else meta[::4], ('front.',))
