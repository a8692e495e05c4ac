"""C06  dictionary entries reach the file before the messages that need them"""
from checks import bgrun

LEVEL = 'proof'
EXPLAIN = ('The background thread is executed abstractly with a symbolic number of registered sites and a symbolic highest identifier among the staged messages: '
           'when messages are encoded the dictionary entries up to the highest identifier they can carry have been encoded before them in the same file; '
           'registration is executed with and without an identifier already given.')
RULES = ['dict.before: messages are encoded only when the entries of all their sites are', 'dict.range/count: consecutive entries, none skipped or repeated',
         'dict.progress: new entries are encoded in every pass, and messages are encoded once their entries are', 'dict.id/once: the identifier of a site is its position in the list, assigned once']
ASSUME = ['a message is staged only after its site was registered (decided by C02/C07 front.register)', 'encodeNewDictionaryEntries as decided by C08/C10']


def run(res, tier):
    res.rules += RULES
    res.assumptions += ASSUME
    for fl, asserts in bgrun.builds(tier):
        mod = bgrun.module(fl, asserts)
        bgrun.drive(res, mod, 'dict', ['thread', 'register'], ('dict.',), fl)
    res.floor('obligations', sum(a for a, b in res.oblig.values()), 5)
