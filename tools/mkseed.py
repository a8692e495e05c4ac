#!/usr/bin/env python3
"""mkseed.py ID PROP FILE OLD NEW NEEDS BREAKS  - write seeded/ID/{patch.diff,meta.json}
(several FILE OLD NEW triples may be given as a JSON list in FILE: @edits.json)"""
import json, os, subprocess, sys, tempfile, shutil
sid, prop, f, old, new, needs, breaks = sys.argv[1:8]
edits = json.load(open(f[1:])) if f.startswith('@') else [[f, old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')]]
d = tempfile.mkdtemp()
try:
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', d + '/w', 'HEAD'])
    w = d + '/w'
    for f, o, n in edits:
        s = open(w + '/' + f).read()
        assert s.count(o) == 1, (f, o, s.count(o))
        open(w + '/' + f, 'w').write(s.replace(o, n))
    out = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
    t = '/verif/seeded/' + sid
    os.makedirs(t, exist_ok=True)
    open(t + '/patch.diff', 'w').write(out)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(t + '/meta.json', 'w'), indent=1)
finally:
    subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', d + '/w'])
    shutil.rmtree(d, True)
