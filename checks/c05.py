"""C05  changing the log file and shutting down lose nothing"""
from checks import bgrun

LEVEL = 'proof'
EXPLAIN = ('setLogFile(), the constructor and the destructor are executed abstractly on every path (including the throwing ones), and the background thread up '
           'to its return: staged messages are synced before the thread is stopped, the thread ends only with nothing encoded, submitted or left over, '
           'its state and files are touched only while it does not run, files are opened for appending, and it restarts on the new file with an empty dictionary.')
RULES = ['file.sync-first: sync before the stop request', 'file.stop: the thread is joined only after it was told to stop',
         'file.exit: the thread ends only with no outstanding, partial or unsubmitted output', 'file.quiescent/close/free: its state, file and buffers are touched only while it is not running',
         'file.append: the file is opened for appending and not truncated', 'file.start: it starts with reset flags, the dictionary restarted, the newly opened file and two full-size buffers',
         'file.reject: a failing setLogFile() leaves the logger as it was', 'file.flush: the destructor syncs and joins']
ASSUME = ['setLogFile() is not called concurrently with itself (documented)', 'sync() as decided by C03']


def run(res, tier):
    res.rules += RULES
    res.assumptions += ASSUME
    for fl, asserts in bgrun.builds(tier):
        mod = bgrun.module(fl, asserts)
        bgrun.drive(res, mod, 'dict', ['setfile', 'ctor', 'dtor'], ('file.',), fl)
        bgrun.drive(res, mod, 'aio', ['thread'], ('file.',), fl)
    res.floor('obligations', sum(a for a, b in res.oblig.values()), 25)
