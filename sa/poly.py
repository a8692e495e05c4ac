"""Linear expressions and the convex-polyhedra numeric domain (Cousot & Halbwachs).

A numeric abstract element is a conjunction of linear inequalities  e >= 0  over
integer-valued symbols.  Emptiness and entailment are decided inside the domain by
Gaussian elimination of equalities and Fourier-Motzkin projection with integer
(gcd) tightening; no SMT solver is involved.  Giving up (too many constraints)
answers "may be non-empty", which is the sound direction for a may analysis.
"""
from math import gcd

INF = float('inf')


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def is_const(self):
        return not self.t

    def syms(self):
        return [s for s, _ in self.t]

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((s, v * k) for s, v in self.t))

    def __repr__(self):
        if not self.t:
            return str(self.c)
        r = []
        for s, k in self.t:
            n = names.get(s, 's') + ('#%d' % s if __import__('os').environ.get('SYMID') else '')
            r.append(('%+d*%s' % (k, n)) if k not in (1, -1) else ('+' if k > 0 else '-') + n)
        if self.c:
            r.append('%+d' % self.c)
        return ' '.join(r).lstrip('+')


names = {}
_next = [0]


def fresh(name=None):
    _next[0] += 1
    if name:
        names[_next[0]] = name
    return _next[0]


def var(s):
    return Lin(0, ((s, 1),))


def K(c):
    return Lin(c)


def tighten(e):
    """divide e >= 0 by the gcd of its coefficients, flooring the constant"""
    if not e.t:
        return e
    g = 0
    for _, k in e.t:
        g = gcd(g, k)
        if g == 1:
            return e
    return Lin(e.c // g, tuple((s, k // g) for s, k in e.t))


_cache = {}
PROTECT = set()     # symbols kept in normal forms (parameters every state shares)
stats = {'entail': 0, 'fm': 0, 'giveup': 0}
LIMIT = 260


def infeasible(cons):
    """True only if no integer point satisfies every e >= 0 in cons"""
    cs = set()
    for e in cons:
        e = tighten(e)
        if not e.t:
            if e.c < 0:
                return True
            continue
        cs.add(e)
    key = frozenset(cs)
    r = _cache.get(key)
    if r is not None:
        return r
    r = _fm(cs)
    if not r:
        r = _carry(cs)
    if len(_cache) > 400000:
        _cache.clear()
    _cache[key] = r
    return r


def _carry(cs, depth=2):
    """case split on a two-valued symbol with a big coefficient (a carry or borrow)"""
    if depth == 0 or len(cs) > 60:
        return False
    lo, hi, big = {}, {}, set()
    for e in cs:
        if len(e.t) == 1:
            s, k = e.t[0]
            if k == 1:
                lo[s] = max(lo.get(s, -e.c), -e.c)
            elif k == -1:
                hi[s] = min(hi.get(s, e.c), e.c)
        else:
            for s, k in e.t:
                if k >= 256 or k <= -256:
                    big.add(s)
    for s in sorted(big):
        if s in lo and s in hi and hi[s] - lo[s] == 1:
            for v in (lo[s], hi[s]):
                sub = set()
                bad = False
                for e in cs:
                    kk = 0
                    for ss, k in e.t:
                        if ss == s:
                            kk = k
                    if kk:
                        e = tighten(Lin(e.c + kk * v, tuple(x for x in e.t if x[0] != s)))
                        if not e.t:
                            if e.c < 0:
                                bad = True
                                break
                            continue
                    sub.add(e)
                if bad or _fm(sub) or _carry(sub, depth - 1):
                    continue
                return False
            return True
    return False


def _simplify(cs):
    """keep the tightest constant for each direction"""
    best = {}
    for e in cs:
        o = best.get(e.t)
        if o is None or e.c < o:
            best[e.t] = e.c
    return best


def _fm(cs):
    stats['fm'] += 1
    best = _simplify(cs)
    while True:
        # opposite directions -> equality or contradiction
        eq = None
        for t, c in best.items():
            nt = tuple((s, -k) for s, k in t)
            oc = best.get(nt)
            if oc is not None:
                if c + oc < 0:
                    return True
                if c + oc == 0 and eq is None:
                    for s, k in t:
                        if k in (1, -1):
                            eq = (t, c, s, k)
                            break
        if eq is not None:
            t, c, s, k = eq
            # k*s + rest + c = 0 -> s = -k*(rest + c)
            rest = Lin(c, tuple(x for x in t if x[0] != s))
            sub = rest.scale(-k)
            new = {}
            for tt, cc in best.items():
                kk = 0
                for ss, v in tt:
                    if ss == s:
                        kk = v
                        break
                if kk:
                    e = Lin(cc, tuple(x for x in tt if x[0] != s)) + sub.scale(kk)
                    e = tighten(e)
                    if not e.t:
                        if e.c < 0:
                            return True
                        continue
                    tt, cc = e.t, e.c
                o = new.get(tt)
                if o is None or cc < o:
                    new[tt] = cc
            best = new
            continue
        if not best:
            return False
        # pick variable with the cheapest elimination
        pos, neg = {}, {}
        for t in best:
            for s, k in t:
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        vs = set(pos) | set(neg)
        v = min(vs, key=lambda s: (pos.get(s, 0) * neg.get(s, 0) - pos.get(s, 0) - neg.get(s, 0), s))
        P, N, R = [], [], {}
        for t, c in best.items():
            kk = 0
            for s, k in t:
                if s == v:
                    kk = k
                    break
            if kk > 0:
                P.append((t, c, kk))
            elif kk < 0:
                N.append((t, c, -kk))
            else:
                R[t] = c
        for t1, c1, k1 in P:
            for t2, c2, k2 in N:
                e = Lin(c1, t1).scale(k2) + Lin(c2, t2).scale(k1)
                e = tighten(e)
                if not e.t:
                    if e.c < 0:
                        return True
                    continue
                o = R.get(e.t)
                if o is None or e.c < o:
                    R[e.t] = e.c
        if len(R) > LIMIT:
            stats['giveup'] += 1
            return False
        best = R


class Poly:
    """mutable conjunction with cheap interval bounds and solved equalities"""
    __slots__ = ('sub', 'bnd', 'cons', 'dead')

    def __init__(self):
        self.sub = {}
        self.bnd = {}
        self.cons = set()
        self.dead = False

    def copy(self):
        p = Poly()
        p.sub = dict(self.sub)
        p.bnd = dict(self.bnd)
        p.cons = set(self.cons)
        p.dead = self.dead
        return p

    def norm(self, e):
        if not self.sub or not e.t:
            return e
        hit = False
        for s, _ in e.t:
            if s in self.sub:
                hit = True
                break
        if not hit:
            return e
        r = Lin(e.c)
        for s, k in e.t:
            x = self.sub.get(s)
            r = r + (x.scale(k) if x is not None else Lin(0, ((s, k),)))
        return r

    def declare(self, s, lo, hi):
        if s not in self.bnd and s not in self.sub:
            self.bnd[s] = (lo, hi)

    def define(self, s, e):
        """s := e for a symbol without constraints of its own"""
        self.bnd.pop(s, None)
        self.sub[s] = self.norm(e)

    def propagated(self, rounds=4):
        """a copy whose interval bounds take the relations into account (for
        proposing invariant candidates only)"""
        q = self.copy()
        for _ in range(rounds):
            moved = False
            for e in self.cons:
                if len(e.t) > 4:
                    continue
                for s, k in e.t:
                    rest = Lin(e.c, tuple(x for x in e.t if x[0] != s))
                    hi = q.bounds(rest)[1]
                    if hi == INF or s in q.sub:
                        continue
                    a, b = q.bnd.get(s, (-INF, INF))
                    # k*s + rest >= 0
                    if k > 0:
                        v = -(hi // k)
                        if v > a:
                            q.bnd[s] = (v, b)
                            moved = True
                    else:
                        v = hi // (-k)
                        if v < b:
                            q.bnd[s] = (a, v)
                            moved = True
            if not moved:
                break
        return q

    def bounds(self, e):
        e = self.norm(e)
        lo = hi = e.c
        for s, k in e.t:
            a, b = self.bnd.get(s, (-INF, INF))
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    def _cone(self, e):
        """constraints connected to the symbols of e"""
        want = set(e.syms())
        out = set()
        rest = list(self.cons)
        seen_syms = set()
        changed = True
        while changed:
            changed = False
            nr = []
            for c in rest:
                if any(s in want for s, _ in c.t):
                    out.add(c)
                    for s, _ in c.t:
                        want.add(s)
                    changed = True
                else:
                    nr.append(c)
            rest = nr
        for s in want:
            lo, hi = self.bnd.get(s, (-INF, INF))
            if lo != -INF:
                out.add(Lin(-lo, ((s, 1),)))
            if hi != INF:
                out.add(Lin(hi, ((s, -1),)))
        return out

    def entails(self, e):
        """e >= 0 on every point"""
        if self.dead:
            return True
        e = self.norm(e)
        stats['entail'] += 1
        lo, hi = self.bounds(e)
        if lo >= 0:
            return True
        if hi < 0:
            return self._empty_cone(e)
        if not e.t:
            return False
        te = tighten(e)
        if te in self.cons:
            return True
        c = self._cone(e)
        c.add((-e) - 1)
        return infeasible(c)

    def _empty_cone(self, e):
        return infeasible(self._cone(e))

    def entails_eq(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c == 0
        return self.entails(e) and self.entails(-e)

    def feasible_with(self, e):
        e = self.norm(e)
        if self.dead:
            return False
        lo, hi = self.bounds(e)
        if hi < 0:
            return False
        if not e.t:
            return e.c >= 0
        c = self._cone(e)
        c.add(e)
        return not infeasible(c)

    def assume(self, e):
        """add e >= 0; returns False if the result is certainly empty"""
        if not self._assume(e):
            return False
        if self.carries:
            return self._settle()
        return True

    carries = False         # class-wide: resolve carries and borrows eagerly

    def _settle(self):
        """pin down quotient symbols (big coefficients) whose value follows from bounds"""
        for _ in range(4):
            moved = False
            for c in list(self.cons):
                for s, k in c.t:
                    if -(1 << 40) < k < (1 << 40) or c not in self.cons:
                        continue
                    rest = Lin(c.c, tuple(x for x in c.t if x[0] != s))
                    hi = self.bounds(rest)[1]
                    if hi == INF:
                        continue
                    a, b = self.bnd.get(s, (-INF, INF))
                    if k > 0 and -(hi // k) > a:
                        a = -(hi // k)
                    elif k < 0 and hi // -k < b:
                        b = hi // -k
                    else:
                        continue
                    if a > b:
                        self.dead = True
                        return False
                    self.bnd[s] = (a, b)
                    moved = True
                    if a == b:
                        if not self._solve(s, Lin(a)):
                            return False
                        break
            if not moved:
                break
        return True

    def _assume(self, e):
        """add e >= 0; returns False if the result is certainly empty"""
        if self.dead:
            return False
        e = tighten(self.norm(e))
        if not e.t:
            if e.c < 0:
                self.dead = True
            return not self.dead
        lo, hi = self.bounds(e)
        if lo >= 0:
            return True
        if hi < 0:
            self.dead = True
            return False
        c = self._cone(e)
        c.add(e)
        if infeasible(c):
            self.dead = True
            return False
        if len(e.t) == 1:
            s, k = e.t[0]
            a, b = self.bnd.get(s, (-INF, INF))
            if k == 1:
                a = max(a, -e.c)
            elif k == -1:
                b = min(b, e.c)
            elif k > 0:
                a = max(a, -(e.c // k))
            else:
                b = min(b, e.c // (-k))
            self.bnd[s] = (a, b)
            if a == b:
                self._solve(s, Lin(a))
        else:
            # equality?
            ne = Lin(-e.c, tuple((s, -k) for s, k in e.t))
            if ne in self.cons:
                self.cons.discard(ne)
                return self._eq(e)
            dom = [c2 for c2 in self.cons if c2.t == e.t]
            for c2 in dom:
                if c2.c <= e.c:
                    return True
                self.cons.discard(c2)
            self.cons.add(e)
        return True

    def _eq(self, e):
        unit = [(s, k) for s, k in e.t if k in (1, -1)]
        if PROTECT:
            unit.sort(key=lambda x: x[0] in PROTECT)
        for s, k in unit:
            if True:
                rest = Lin(e.c, tuple(x for x in e.t if x[0] != s)).scale(-k)
                return self._solve(s, rest)
        self.cons.add(e)
        self.cons.add(-e)
        return True

    def assume_eq(self, e):
        e = self.norm(e)
        if not e.t:
            if e.c:
                self.dead = True
            return not self.dead
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if e.c % g:
            self.dead = True
            return False
        if g != 1:
            e = Lin(e.c // g, tuple((s, k // g) for s, k in e.t))
        if not self.feasible_with(e) or not self.feasible_with(-e):
            self.dead = True
            return False
        return self._eq(e)

    def _solve(self, s, rest):
        """s := rest everywhere"""
        lo, hi = self.bnd.pop(s, (-INF, INF))
        self.sub[s] = rest
        for k, v in list(self.sub.items()):
            for ss, c in v.t:
                if ss == s:
                    self.sub[k] = Lin(v.c, tuple(x for x in v.t if x[0] != s)) + rest.scale(c)
                    break
        old = self.cons
        self.cons = set()
        moved = []
        for e in old:
            if any(ss == s for ss, _ in e.t):
                moved.append(e)
            else:
                self.cons.add(e)
        if lo != -INF:
            moved.append(rest - lo)
        if hi != INF:
            moved.append(Lin(hi) - rest)
        for e in moved:
            if not self.assume(e):
                return False
        return True

    def project(self, live):
        """forget every symbol that is not live, keeping what follows about the others
        (an over-approximation: large eliminations just drop the constraints)"""
        for s in [s for s in self.sub if s not in live]:
            del self.sub[s]
        used = {}
        for y, v in self.sub.items():
            for x, k in v.t:
                if x not in live:
                    used.setdefault(x, []).append((y, k))
        keep = set()
        while used:
            x = min(used)
            y = next((y for y, k in sorted(used[x]) if k in (1, -1)), None)
            if y is None:
                keep.add(x)
                del used[x]
                continue
            v = self.sub.pop(y)
            k = dict(v.t)[x]
            self.bnd[y] = self.bounds(v)
            rest = Lin(v.c, tuple(z for z in v.t if z[0] != x))
            if not self._solve(x, (Lin(0, ((y, 1),)) - rest).scale(k)):
                return
            del self.sub[x]
            used = {}
            for y, v in self.sub.items():
                for x, k in v.t:
                    if x not in live and x not in keep:
                        used.setdefault(x, []).append((y, k))
        dead = {s for e in self.cons for s, _ in e.t} | set(self.bnd)
        dead -= live
        dead -= keep
        for x in sorted(dead):
            pos, neg, rest = [], [], set()
            for e in self.cons:
                for s, k in e.t:
                    if s == x:
                        (pos if k > 0 else neg).append((e, abs(k)))
                        break
                else:
                    rest.add(e)
            lo, hi = self.bnd.pop(x, (-INF, INF))
            if not pos and not neg:
                continue
            if lo != -INF:
                pos.append((Lin(-lo, ((x, 1),)), 1))
            if hi != INF:
                neg.append((Lin(hi, ((x, -1),)), 1))
            self.cons = rest
            if len(pos) * len(neg) > len(pos) + len(neg) + 8:
                continue
            for a, k in pos:
                for b, m in neg:
                    e = tighten(a.scale(m) + b.scale(k))
                    if not e.t:
                        if e.c < 0:
                            self.dead = True
                        continue
                    if len(e.t) == 1:
                        s, c = e.t[0]
                        l, h = self.bnd.get(s, (-INF, INF))
                        self.bnd[s] = (max(l, -(e.c // c)), h) if c > 0 else (l, min(h, e.c // -c))
                        continue
                    l, _ = self.bounds(e)
                    if l < 0 and len(e.t) <= 6:
                        same = [c for c in self.cons if c.t == e.t]
                        if not any(c.c <= e.c for c in same):
                            self.cons -= set(same)
                            self.cons.add(e)

    def all_cons(self):
        """every constraint as e >= 0, including bounds and solved equalities"""
        out = set(self.cons)
        for s, (lo, hi) in self.bnd.items():
            if lo != -INF:
                out.add(Lin(-lo, ((s, 1),)))
            if hi != INF:
                out.add(Lin(hi, ((s, -1),)))
        return out
