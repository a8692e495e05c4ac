"""C14  staging buffers live as long as they are needed, each thread has its own"""
from checks import bgrun

LEVEL = 'proof'
EXPLAIN = ('The list of staging buffers is followed abstractly for one arbitrary buffer: created once per thread under a fresh identifier, put in the list once, '
           'visited in every pass, given up exactly once when its thread ends, freed exactly once, under the lock and only after its owner gave it up and it was '
           'found empty by a comparison made after that, and never used afterwards.')
RULES = ['id.unique: identifiers are taken and advanced under bufferMutex', 'list.push: each thread adds the buffer it created, once',
         'life.skip/visit: a pass visits every buffer in the list', 'life.retired/drained/delete: freed only when given up, then seen empty, while holding bufferMutex',
         'life.uaf/dangling: a freed buffer is neither used nor left in the list', 'life.handover: a thread gives up its buffer exactly once and does not use it afterwards']
ASSUME = ['fewer than 2^32 staging buffers are created', 'thread-local destructors run in the thread that owns the buffer']


def run(res, tier):
    res.rules += RULES
    res.assumptions += ASSUME
    for fl, asserts in bgrun.builds(tier):
        mod = bgrun.module(fl, asserts)
        bgrun.drive(res, mod, 'life', ['thread', 'ensure', 'exit', 'cand'], ('life.', 'list.', 'id.'), fl)
    res.floor('obligations', sum(a for a, b in res.oblig.values()), 25)
