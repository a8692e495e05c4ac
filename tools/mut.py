#!/usr/bin/env python3
"""developer aid: mut.py FILE OLD NEW CHECK...   (or  mut.py -p patch CHECK...)
copies /repo's sources to a scratch dir, edits, runs the checks there with
NANOLOG_REPO pointing at it, removes the copy."""
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp(prefix='mut-')
try:
    r = d + '/repo'
    os.makedirs(r)
    for x in ('runtime', 'preprocessor'):
        shutil.copytree('/repo/' + x, r + '/' + x, ignore=shutil.ignore_patterns('*.o', '*.a', '*.d', 'test', 'decompressor', 'test_build'))
    a = sys.argv[1:]
    if a[0] == '-p':
        subprocess.check_call(['patch', '-p1', '-s', '-d', r, '-i', os.path.abspath(a[1])])
        checks = a[2:]
    else:
        f, old, new = a[:3]
        old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
        p = r + '/' + f
        s = open(p).read()
        assert s.count(old) >= 1, 'pattern not found'
        if s.count(old) > 1:
            print('note: %d occurrences, first replaced' % s.count(old))
        s = s.replace(old, new, 1)
        open(p, 'w').write(s)
        checks = a[3:]
    env = dict(os.environ, NANOLOG_REPO=r, VERIF_EVIDENCE=d)
    for c in checks:
        q = subprocess.run([sys.executable, '/verif/check.py', c], env=env, capture_output=True, text=True)
        print('---', c, 'rc=%d' % q.returncode)
        print('\n'.join((q.stdout + q.stderr).splitlines()[-8:])[:2500])
finally:
    shutil.rmtree(d, True)
