#!/usr/bin/env python3
"""single source for properties.jsonl and MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), check=None, na=None, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                           'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                           'observe_at': list(observe), 'hook_needed': None},
                  check=check, na=na))


RT = ['runtime/RuntimeLogger.h', 'runtime/RuntimeLogger.cc']
BUILDING = 'check under construction; not claimed until it is built and validated against planted changes'

prop('C01', 'Staged log bytes are never overwritten, lost, duplicated or reordered',
     'Every byte range a logging thread has staged is handed to the background thread exactly once, unmodified and in '
     'order, no matter how the two threads interleave; space is reused only after it has been released. A logging '
     'thread whose buffer has been drained can always stage a message shorter than half the buffer.',
     ['schedules', 'inputs', 'histories'],
     'all interleavings of one producer and one consumer, all sequences of message sizes and partial consumes, all wrap positions',
     'The unit tests drive a few hand-picked positions single-threaded; the wrap conditions depend on relative positions and on where the other thread is.',
     RT, [('reserveProducerSpace/reserveSpaceInternal/finishReservation', 'runtime/RuntimeLogger.h'),
          ('peek/consume', 'runtime/RuntimeLogger.cc')],
     ['bytes handed to the background thread'],
     check=dict(technique='rely/guarantee abstract interpretation of the compiled ring buffer over convex polyhedra',
                level='proof',
                note='every store and return of the ring buffer code is an obligation discharged for all positions, sizes '
                     'and interleavings; trusts clang, the IR reader and the abstract interpreter; x86-TSO fences'))

exec(open(os.path.join(ROOT, 'tools', 'props_more.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('check', 'na')}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa checks check.py', 'checks': [], 'not_applicable': []}
    for p in P:
        c = p['check']
        if c:
            man['checks'].append({
                'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'],
                'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
        else:
            man['not_applicable'].append({'property': p['id'], 'reason': p['na'] or BUILDING})
    man['notes'] = 'static analysis only; see DESIGN.md. NANOLOG_REPO overrides /repo for development.'
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
