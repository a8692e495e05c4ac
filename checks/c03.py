"""C03  sync() returns only after everything staged before it is in the file"""
from checks import bgrun

LEVEL = 'proof'
EXPLAIN = ('The background thread is executed abstractly following one arbitrary message, staged before a sync() call, from its staging buffer through the '
           'output buffers into the file, for every state of the other buffers, every result of the writes and every interleaving of further sync() calls '
           'at the locks; the sync state may become "complete" and waiters be woken only when that message has been written. sync() itself is executed with '
           'an arbitrary environment behind its locks and waits.')
RULES = ['sync.complete: the sync state becomes complete only when the followed message is in the file',
         'sync.notify: whoever sets the sync state to complete wakes the waiters before it sleeps or starts over',
         'sync.request: sync() requests a sync before it waits', 'sync.return: sync() returns only in a state that says complete, reached after its request',
         'sync.progress: a requested sync is not dropped']
ASSUME = ['one message followed at a time; it is an arbitrary one', 'peek/consume as decided by C01, encodeLogMsgs as decided by C08 and C10',
          'the aio functions behave as POSIX says; when the OS reports a write error the message counts as handled',
          'log statements of the calling thread are ordered before its sync() call']


def run(res, tier):
    res.rules += RULES
    res.assumptions += ASSUME
    for fl, asserts in bgrun.builds(tier):
        mod = bgrun.module(fl, asserts)
        bgrun.drive(res, mod, 'sync', ['sync', 'thread'], ('sync.',), fl)
    for r in res.oblig:
        pass
    res.floor('obligations on completing a sync', sum(a for k, (a, b) in res.oblig.items()), 20)
