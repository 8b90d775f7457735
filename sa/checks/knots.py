"""Knot insertion, splitting, clamping and Bezier pieces of B-spline curves."""
from framework import *
from checks.eval_ import inv0, SC, KV, BC
from checks.geom import field



class Shape:
    """a B-spline curve of given degree and knot pattern: knots are partial sums of positive gaps,
    so that every comparison of knots is decided; a knot is never nearly equal to another one"""

    def __init__(self, p, mult, at=None):
        """mult: multiplicities of the distinct knots; at: (k, True) for the k-th distinct knot,
        (k, False) for a parameter between the k-th and the next"""
        self.p, self.mult = p, mult
        vals = [num('a')]
        self.t = None
        for k in range(1, len(mult)):
            g = self.pos('g%d' % k)
            if at == (k - 1, False):
                self.t = add(vals[-1], g)
                g = add(g, self.pos('h%d' % k))
            vals.append(add(vals[-1], g))
        if at and at[1]:
            self.t = vals[at[0]]
        self.vals = vals
        self.T = [v for v, m in zip(vals, mult) for _ in range(m)]
        self.n = len(self.T) - p - 1
        self.P = [v3('P%d' % i) for i in range(self.n)]
        T_.near_hooks.append(lambda tag, x: FALSE if T_.rsign(x) in (-1, 1) else None)

    def pos(self, name):
        facts.pos.add(sym(name))
        return num(name)

    def curve(self):
        return agg(SC, seq(self.P), agg('knot::KnotVector', seq(self.T)), const(self.p))

    def blossom(self, args, span):
        """the polar form of the polynomial piece over span (an index of T) at the arguments"""
        p, T = self.p, self.T
        z = vec(ZERO, ZERO, ZERO)
        d = [self.P[span - p + j] if 0 <= span - p + j < self.n else z for j in range(p + 1)]
        # knots beyond the ends: with zero control points any strictly increasing continuation will do
        lo = lambda i: T[i] if 0 <= i < len(T) else (sub(T[0], const(-i)) if i < 0 else add(T[-1], const(i - len(T) + 1)))
        for r in range(1, p + 1):
            e = []
            for j in range(r, p + 1):
                i = span - p + j
                a, b = lo(i), lo(i + p - r + 1)
                w = div(sub(args[r - 1], a), sub(b, a))
                e.append(vadd(vscale(sub(ONE, w), d[j - r]), vscale(w, d[j - r + 1])))
            d = e
        return d[0]

    def span(self, x):
        """index of the last knot not above x, of a span of positive length"""
        k = -1
        for i, y in enumerate(self.T):
            if T_.rsign(sub(x, y)) in (0, 1):
                k = i
        while k >= 0 and (k + 1 >= len(self.T) or self.T[k] is self.T[k + 1]):
            k -= 1
        return k

    def points(self, U, lo=0):
        """control points over the refined knots U: their blossoms in a span the knots touch"""
        p = self.p
        out = []
        for j in range(len(U) - p - 1):
            args = U[j + 1:j + p + 1]
            # a span of the refined knots between U[j] and U[j+p+1]
            s = next((i for i in range(j, j + p + 1) if U[i] is not U[i + 1]), None)
            out.append(None if s is None else self.blossom(args, self.span(U[s])))
        return out


def seq(xs):
    return cat(*[unit(x) for x in xs]) if xs else NIL


def insert(T, t, index=False):
    k = 0
    for i, y in enumerate(T):
        if T_.rsign(sub(t, y)) in (0, 1):
            k = i + 1
    return k if index else T[:k] + [t] + T[k:]


def is_same(ck, name, got, want):
    ck.equal(name, got, want, strict_panic=True, trials=20)


def same_points(ck, name, got, want):
    """control points, where those of basis functions without support do not matter"""
    if all(w is not None for w in want):
        is_same(ck, name, got, seq(want))
        return
    is_same(ck, name + '/count', length(got), const(len(want)))
    for i, w in enumerate(want):
        if w is not None:
            is_same(ck, '%s/%d' % (name, i), get(got, const(i)), w)


def same_curve(ck, name, got, c, U):
    is_same(ck, name + '/knots', field(field(got, 1), 0), seq(U))
    same_points(ck, name + '/points', field(got, 0), c.points(U))
    is_same(ck, name + '/degree', field(got, 2), const(c.p))


def text(p, mult, at=None):
    return '%d.%s%s' % (p, ''.join(map(str, mult)), '' if at is None else ('.at%d' if at[1] else '.in%d') % at[0])


def shapes(ck):
    out = []
    for p in (1, 2, 3):
        e = p + 1
        out += [(p, (e, 1, e)), (p, (e, e)), (p, (1,) * (2 * p + 3))]
        if p > 1:
            out += [(p, (e, 2, 1, e)), (p, (1, 2) + (1,) * (2 * p)), (p, (e, p, e))]
    out += [(3, (4, 3, 2, 4)), (4, (5, 2, 5)), (2, (2, 1, 3, 1, 1)), (2, (3, 1, 1, 1, 3)), (3, (4, 1, 1, 1)), (3, (1, 1, 1, 2, 4))]
    if ck.tier != 'quick':
        # every pattern of multiplicities up to the order, within a total length
        import itertools
        for p, top in ((1, 7), (2, 9), (3, 10)):
            for k in range(2, 6):
                for m in itertools.product(range(1, p + 2), repeat=k):
                    if 2 * p + 2 <= sum(m) <= top:
                        out.append((p, m))
        out += [(4, (5, 1, 2, 1, 5)), (5, (6, 1, 6)), (5, (6, 3, 2, 6))]
    return sorted(set(out))


AK = SC + '::add_knot'
SPLIT = SC + '::split'
CLAMP = SC + '::clamp'
PIECES = SC + '::to_piecewise_bezier'
KADD = KV + '::add_knot'


def p_insert(ck):
    def knot_only(p, mult, at):
        def go():
            c = Shape(p, mult, at)
            r, st = ck.run(KADD, [mk('ref', 'C', ()), c.t], st={'C': agg(KV, seq(c.T))}, unroll=40)
            is_same(ck, 'knots/' + text(p, mult, at), field(st['C'], 0), seq(insert(c.T, c.t)))
            is_same(ck, 'knots/' + text(p, mult, at) + '/index', r, const(insert(c.T, c.t, True)))
        return go

    def add_one(p, mult, at):
        def go():
            c = Shape(p, mult, at)
            r, st = ck.run(AK, [mk('ref', 'C', ()), c.t], st={'C': c.curve()}, unroll=40)
            same_curve(ck, 'insert/' + text(p, mult, at), st['C'], c, insert(c.T, c.t))
        return go

    def split(p, mult, at):
        def go():
            c = Shape(p, mult, at)
            r, st = ck.run(SPLIT, [mk('ref', 'C', ()), c.t], st={'C': c.curve()}, unroll=40)
            nm = 'split/' + text(p, mult, at)
            same_curve(ck, nm + '/left', st['C'], c, [u for u in c.T if T_.rsign(sub(u, c.t)) < 0] + [c.t] * (p + 1))
            same_curve(ck, nm + '/right', r, c, [c.t] * (p + 1) + [u for u in c.T if T_.rsign(sub(u, c.t)) > 0])
        return go

    def clamp(p, mult):
        def go():
            c = Shape(p, mult)
            r, st = ck.run(CLAMP, [mk('ref', 'C', ())], st={'C': c.curve()}, unroll=40)
            m = [max(p + 1, mult[0])] + list(mult[1:-1]) + [max(p + 1, mult[-1])]
            same_curve(ck, 'clamp/' + text(p, mult), st['C'], c, [v for v, k in zip(c.vals, m) for _ in range(k)])
        return go

    def pieces(p, mult):
        def go():
            c = Shape(p, mult)
            r, st = ck.run(PIECES, [mk('ref', 'C', ())], st={'C': c.curve()}, unroll=60)
            nm = 'bezier/' + text(p, mult)
            is_same(ck, nm + '/count', length(r), const(len(mult) - 1))
            for i in range(len(mult) - 1):
                a, b = c.vals[i], c.vals[i + 1]
                s = c.span(a)
                want = [c.blossom([a] * (p - j) + [b] * j, s) for j in range(p + 1)]
                is_same(ck, '%s/%d' % (nm, i), field(get(r, const(i)), 0), seq(want))
        return go

    for p, mult in shapes(ck):
        last = len(mult) - 1
        for k in range(last):
            ck.oblige('knots', knot_only(p, mult, (k, False)), KADD, 60)
            ck.oblige('insert', add_one(p, mult, (k, False)), AK, 60)
            ck.oblige('split', split(p, mult, (k, False)), SPLIT, 60)
            if mult[k] <= p:
                ck.oblige('knots', knot_only(p, mult, (k, True)), KADD, 60)
                ck.oblige('insert', add_one(p, mult, (k, True)), AK, 60)
            if k > 0:
                ck.oblige('split', split(p, mult, (k, True)), SPLIT, 60)
        ck.oblige('clamp', clamp(p, mult), CLAMP, 60)
        ck.oblige('bezier', pieces(p, mult), PIECES, 60)
