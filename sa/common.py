"""Check driver: evidence, known findings, exit codes."""
import json
import os
import sys
import time
import traceback
from . import build
from .absint import AnalysisError

ROOT = build.HERE


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []     # dicts: rule, where, function, msg, path
        self.oblig = {}          # label -> [total, discharged]
        self.instances = {}      # what was analysed
        self.samples = []
        self.assumptions = []
        self.unknown = []
        self.rules = []

    def ob(self, label, ok=True, n=1):
        a = self.oblig.setdefault(label, [0, 0])
        a[0] += n
        if ok:
            a[1] += n

    def violate(self, rule, where, function, msg, path=()):
        self.violations.append(dict(rule=rule, where=where, function=function, msg=msg,
                                    path=list(path)))

    def require(self, label, ok, where, function, msg, path=()):
        self.ob(label, ok)
        if not ok:
            self.violate(label, where, function, msg, path)
        return ok

    def absorb(self, it, tag=''):
        """take over what an abstract interpreter run established"""
        for k, (n, d) in it.oblig.items():
            a = self.oblig.setdefault(k, [0, 0])
            a[0] += n
            a[1] += d
        self.violations += it.violations
        self.unknown += it.unknowns
        f = self.instances.setdefault('functions', set())
        for n in it.visited_fns:
            f.add(n)
        self.count('abstract_steps', it.steps)
        self.count('call_sites', it.call_sites)

    def count(self, k, n=1):
        self.instances[k] = self.instances.get(k, 0) + n

    def floor(self, what, got, least):
        """instance-count floor: fewer means the rule lost its subject"""
        if got < least:
            raise AnalysisError('%s: only %d instances found, at least %d expected' % (what, got, least))


def rel(p):
    r = build.REPO.rstrip('/') + '/'
    return p[len(r):] if p.startswith(r) else p


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding: property=%s ' % prop):
                # finding: property=C01 key=<key> <text>
                rest = ln.split(' ', 2)[2]
                key = rest.split(' ', 1)[0]
                assert key.startswith('key=')
                out.append((key[4:], rest.split(' ', 1)[1] if ' ' in rest else ''))
    return out


def main(prop, fn, level, explain):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in sys.argv:
        tier = 'thorough'
    res = Result(prop)
    rc = 0
    err = None
    try:
        fn(res, tier)
    except (AnalysisError, build.BuildError) as ex:
        err = 'analysis not carried out: %s' % ex
        rc = 2
    except Exception:
        err = traceback.format_exc()
        rc = 2
    kf = known_findings(prop)
    seen = set()
    fresh_v = []
    for v in res.violations:
        text = '%s|%s|%s|%s' % (v['rule'], rel(v['where']), v['function'], v['msg'])
        hit = None
        for key, txt in kf:
            if key == v.get('key'):
                hit = (key, txt)
        if hit:
            if hit not in seen:
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[1]))
                seen.add(hit)
            continue
        fresh_v.append(v)
    # deduplicate by rule+site
    uniq = {}
    for v in fresh_v:
        uniq.setdefault((v['rule'], v['where'].rsplit('/', 1)[-1]), v)
    fresh_v = list(uniq.values())
    total = sum(a for a, _ in res.oblig.values())
    disc = sum(b for _, b in res.oblig.values())
    inst = {k: (sorted(v) if isinstance(v, set) else v) for k, v in res.instances.items()}
    fl = inst.get('functions', [])
    if len(fl) > 80:
        inst['functions'] = fl[:80]
    inst['functions_analysed'] = len(fl)
    cov = {
        'obligations': total,
        'discharged': disc,
        'by_rule': {k: {'obligations': a, 'discharged': b} for k, (a, b) in sorted(res.oblig.items())},
        'undecided': [u['rule'] + ' @ ' + rel(u['where']) for u in res.unknown][:20],
        'analysed': inst,
        'rules': res.rules,
        'samples': res.samples[:12],
        'checker_cmd': 'python3 check.py %s' % prop,
        'trusted_base': ['clang 18 front end', 'LLVM sroa pass', '/verif/sa (IR reader, polyhedra, abstract interpreter)'],
        'explanation': explain,
        'known_findings': len(seen),
    }
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': level, 'coverage': cov, 'assumptions': res.assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(fresh_v)}
    EVD = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(EVD, exist_ok=True)
    if err:
        ev['coverage']['error'] = err
    with open(os.path.join(EVD, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if fresh_v:
        rp = os.path.join(EVD, prop + '.violation.txt')
        with open(rp, 'w') as f:
            for v in fresh_v:
                f.write('rule: %s\nwhere: %s\nfunction: %s\n%s\n' % (
                    v['rule'], rel(v['where']), v['function'], v['msg']))
                for p in v['path']:
                    f.write('    via %s\n' % rel(p))
                f.write('\n')
        for v in fresh_v[:6]:
            print('%s: %s: in %s: %s' % (v['rule'], rel(v['where']), v['function'], v['msg'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    elif err:
        sys.stderr.write('check %s: %s\n' % (prop, err))
    else:
        print('%s: held; %d/%d obligations discharged, %d functions analysed, %.1fs' % (
            prop, disc, total, len(fl), time.time() - t0))
        for u in res.unknown[:10]:
            print('  undecided: %s %s %s' % (u['rule'], rel(u['where']), u['msg'][:200]))
    sys.stdout.flush()
    sys.exit(rc)
