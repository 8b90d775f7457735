"""Linear integer and real constraints along a path of a decision diagram (Fourier-Motzkin)."""
from fractions import Fraction

import term as T_
from term import *


def lin(t):
    """{monomial: coefficient} of a polynomial rat term, or None"""
    if t.op != 'rat' or t.args[1]:
        return None
    return {m: Fraction(c) for m, c in t.args[0]}


def _add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + k * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


EPS = ('eps',)      # coefficient of an infinitesimal: strict inequalities of reals


class System:
    """constraints  sum c_m m >= 0"""

    def __init__(self):
        self.cs = []
        self.ne = []          # terms that are not zero
        self.seen = set()

    def copy(self):
        s = System()
        s.cs = list(self.cs)
        s.ne = list(self.ne)
        s.seen = set(self.seen)
        return s

    def ge0(self, t, k=0):
        """t + k >= 0"""
        l = lin(t)
        if l is None:
            return
        if k:
            l = _add(l, {(): Fraction(k)})
        self.atoms(l)
        self.cs.append(l)

    def atoms(self, l, depth=0):
        for m in l:
            if m is EPS:
                continue
            for a, e in m:
                if a in self.seen:
                    continue
                self.seen.add(a)
                if atom(a) is T_.PI:
                    self.cs.append({((a, 1),): Fraction(1), (): Fraction(-3)})
                    self.cs.append({((a, 1),): Fraction(-1), (): Fraction(4)})
                lo, hi = T_.facts.lo.get(a), T_.facts.hi.get(a)
                at = {((a, 1),): Fraction(1)}
                if T_.atom_nonneg(a):
                    self.cs.append(dict(at))
                for b, sg in ((lo, 1), (hi, -1)):
                    if b is None or not isinstance(b, T_.T):
                        continue
                    x = lin(b)
                    if x is None:
                        continue
                    self.atoms(x, depth + 1)
                    self.cs.append({m2: sg * c for m2, c in _add(at, x, -1).items()})
            if len(m) > 1 or (m and m[0][1] > 1):
                if all(T_.atom_nonneg(a) for a, _ in m):
                    self.cs.append({m: Fraction(1)})

    def assume(self, c, b):
        if c.op == 'c_pos':
            t = c.args[0]
            if b == 1:
                self.ge0(t, -1)
            else:
                self.ge0(neg(t))
        elif c.op == 'c_eq':
            t = c.args[0]
            if b == 1:
                self.ge0(t)
                self.ge0(neg(t))
            else:
                self.ne.append(t)
        elif c.op == 'c_sgn':
            t = c.args[0]
            if b == 1:
                self.ge0(t)
                self.ge0(neg(t))
            else:
                self.gt0(t if b == 2 else neg(t))

    def gt0(self, t):
        l = lin(t)
        if l is not None:
            self.atoms(l)
            self.cs.append(_add(l, {EPS: Fraction(-1)}))

    def infeasible(self, extra=()):
        cs = list(self.cs) + list(extra)
        if fm_infeasible(cs):
            return True
        for i, t in enumerate(self.ne):
            l = lin(t)
            if l is None:
                continue
            rest = self.ne[:i] + self.ne[i + 1:]
            ok = True
            for sg in (1, -1):
                s2 = System()
                s2.cs = cs + [_add({m: sg * c for m, c in l.items()}, {(): Fraction(-1)})]
                s2.ne = rest if len(rest) <= 2 else []
                if not s2.infeasible():
                    ok = False
                    break
            if ok:
                return True
        return False

    def forced_zero(self, t):
        l = lin(t)
        if l is None:
            return False
        for sg in (1, -1):
            if not self.infeasible([_add({m: sg * c for m, c in l.items()}, {(): Fraction(-1)})]):
                return False
        return True


def fm_infeasible(cs, limit=400):
    cs = [dict(c) for c in cs]
    while True:
        todo = []
        seen = set()
        for c in cs:
            v = [m for m in c if m != () and m != EPS]
            if not v:
                if c.get((), 0) < 0 or c.get((), 0) == 0 and c.get(EPS, 0) < 0:
                    return True
                continue
            s = max(abs(x) for x in c.values())
            c = {m: x / s for m, x in c.items()}
            k = frozenset(c.items())
            if k not in seen:
                seen.add(k)
                todo.append(c)
        cs = todo
        if not cs:
            return False
        cnt = {}
        for c in cs:
            for m, x in c.items():
                if m != () and m != EPS:
                    p = cnt.setdefault(m, [0, 0])
                    p[0 if x > 0 else 1] += 1
        m = min(cnt, key=lambda m: cnt[m][0] * cnt[m][1])
        pos = [c for c in cs if c.get(m, 0) > 0]
        ng = [c for c in cs if c.get(m, 0) < 0]
        cs = [c for c in cs if not c.get(m, 0)]
        for a in pos:
            for b in ng:
                r = _add({k: x / a[m] for k, x in a.items()}, {k: x / -b[m] for k, x in b.items()})
                r.pop(m, None)
                cs.append(r)
        if len(cs) > limit:
            return False


def path_system(path):
    s = System()
    for c, b in path:
        s.assume(c, b)
    return s


def equalities(s, path, extra=()):
    """substitutions {atom: term} forced on this path"""
    out = []
    for c, b in path:
        if c.op == 'c_sgn' and b == 1:
            r = T_._solve_lin(c.args[0].args[0]) if c.args[0].op == 'rat' else None
            if r:
                out.append(r)
            continue
        if c.op not in ('c_pos', 'c_eq'):
            continue
        t = c.args[0]
        cands = [t]
        if c.op == 'c_pos' and b == 1:
            cands = [sub(t, ONE)]
        for t in cands:
            if c.op == 'c_eq' and b == 1 or s.forced_zero(t):
                r = T_._solve_lin(t.args[0]) if t.op == 'rat' else None
                if r:
                    out.append(r)
    return out
