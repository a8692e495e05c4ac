"""C04  what is encoded reaches the file once, in order, whatever the OS does with the writes"""
from checks import bgrun

LEVEL = 'proof'
EXPLAIN = ('The background thread is executed abstractly with two symbolic output buffers and an asynchronous write whose outcome (completed, short, failed, '
           'interrupted wait, refused) is arbitrary: no buffer is modified while a write of it is in flight, writes do not overlap, each submitted range is '
           'exactly what was encoded or what a short write left over, and staged bytes are released only after they were encoded.')
RULES = ['aio.inflight: a buffer is not modified, swapped or freed while it is being written', 'aio.one: at most one write at a time',
         'aio.range: what is submitted is exactly what was encoded since the last submission, or the rest of a short write',
         'aio.result: the result is collected once, after completion', 'once.encode/consume: staged bytes are encoded once and released only when encoded']
ASSUME = ['POSIX aio semantics for a file opened with O_APPEND', 'encodeLogMsgs as decided by C08/C10, peek/consume as decided by C01',
          'a write the OS reports as failed is lost: the property speaks about writes that are not reported as failed']


def run(res, tier):
    res.rules += RULES
    res.assumptions += ASSUME
    for fl, asserts in bgrun.builds(tier):
        mod = bgrun.module(fl, asserts)
        bgrun.drive(res, mod, 'aio', ['thread'], ('aio.', 'once.'), fl)
    res.floor('obligations', sum(a for a, b in res.oblig.values()), 20)
