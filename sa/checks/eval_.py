"""Evaluation of curves and surfaces: derivatives, Bezier, charts."""
import math

from framework import *

BC = 'curve::bezier::BezierCurve'
SC = 'curve::bspline::BSplineCurve'
SS = 'surface::bspline::BSplineSurface'


def knots(name):
    """a knot vector of unconstrained numbers"""
    return agg('knot::KnotVector', base(sym(name), mk('shape', atom(sym('s')))))


def inv0(x):
    """1/x, or 0 for a vanishing knot span"""
    return ite(T_.ulps(x), ZERO, inv(x))


# ------------------------------------------------------------------ derivatives
def p_derivative(ck):
    def bezier():
        n = slen('P')
        at_least('P', 2)
        P = seq3('P')
        r, _ = ck.run(BC + '::derivative', [rv(agg(BC, P))])
        got = r.args[1]
        want = comp(sub(n, ONE), lambda i: vscale(sub(n, ONE), vsub(get(P, add(i, ONE)), get(P, i))))
        ck.equal('bezier-derivative', got, want)
    ck.oblige('bezier-derivative', bezier, BC + '::derivative')

    def bspline():
        p = num('p', 'u')
        facts.lo[sym('p')] = ONE
        fix_len('P', sub(slen('T'), add(p, ONE)))
        at_least('T', add(p, p, const(2)))
        P, T = seq3('P'), knots('T')
        r, _ = ck.run(SC + '::derivative', [rv(agg(SC, P, T, p))])
        t = T.args[1]
        m = length(P)
        want = comp(sub(m, ONE), lambda i: vscale(mul(p, inv0(sub(get(t, add(i, p, ONE)), get(t, add(i, ONE))))), vsub(get(P, add(i, ONE)), get(P, i))))
        ck.equal('bspline-derivative/points', r.args[1], want)
        ck.equal('bspline-derivative/knots', r.args[2].args[1], comp(sub(slen('T'), const(2)), lambda i: get(t, add(i, ONE))))
        ck.equal('bspline-derivative/degree', r.args[3], sub(p, ONE))
    ck.oblige('bspline-derivative', bspline, SC + '::derivative')

    def surf(which):
        def go():
            p, q = num('p', 'u'), num('q', 'u')
            d = (p, q)[which]
            facts.lo[sym('pq'[which])] = ONE
            U, V = knots('U'), knots('V')
            n, m = num('n', 'u'), num('m', 'u')
            facts.lo[sym('n')] = add(p, ONE)
            facts.lo[sym('m')] = add(q, ONE)
            facts.lo[(sym('n'), sym('m'))[which]] = add(d, ONE)
            fix_len('U', add(n, p, ONE))
            fix_len('V', add(m, q, ONE))
            fix_len('G', mul(n, m))
            G = agg('grid', seq3('G'), n, m)
            r, _ = ck.run(SS + '::derivative_' + 'uv'[which], [rv(agg(SS, G, agg('tuple', U, V), agg('tuple', p, q)))])
            def P(i, j):
                return get(G.args[1], add(mul(i, m), j))
            g = r.args[1]
            name = 'surface-derivative-' + 'uv'[which]
            if which == 0:
                rows, cols = sub(n, ONE), m
            else:
                rows, cols = n, sub(m, ONE)
            t = (U, V)[which].args[1]
            i, j = fresh('n', ZERO, sub(rows, ONE)), fresh('n', ZERO, sub(cols, ONE))
            I, J = atom(i), atom(j)
            ck.equal(name + '/rows', g.args[2], rows)
            ck.equal(name + '/cols', g.args[3], cols)
            ck.equal(name + '/count', length(g.args[1]), mul(rows, cols))
            k = I if which == 0 else J
            dif = vsub(P(add(I, ONE), J), P(I, J)) if which == 0 else vsub(P(I, add(J, ONE)), P(I, J))
            want = vscale(mul(d, inv0(sub(get(t, add(k, d, ONE)), get(t, add(k, ONE))))), dif)
            got = get(g.args[1], add(mul(I, cols), J))
            ck.equal(name + '/points', got, want)
            kn = r.args[2].args[1 + which].args[1]
            ck.equal(name + '/knots', kn, comp(sub(length(t), const(2)), lambda i: get(t, add(i, ONE))))
            ck.equal(name + '/other-knots', r.args[2].args[2 - which], (U, V)[1 - which])
            ck.equal(name + '/degree', r.args[3], agg('tuple', sub(p, ONE), q) if which == 0 else agg('tuple', p, sub(q, ONE)))
        return go
    def flat_(which):
        def go():
            d = num('d', 'u')
            U, V = knots('U'), knots('V')
            n, m = num('n', 'u'), num('m', 'u')
            fix_len('G', mul(n, m))
            G = agg('grid', seq3('G'), n, m)
            name = 'flat-derivative-' + 'uv'[which]
            r, _ = ck.run(SS + '::derivative_' + 'uv'[which], [rv(agg(SS, G, agg('tuple', U, V), agg('tuple', *((ZERO, d) if which == 0 else (d, ZERO)))))])
            g = r.args[1]
            rows, cols = g.args[2], g.args[3]
            pts_ = g.args[1]
            ck.equal(name + '/count', length(pts_), mul(rows, cols))
            i = fresh('n', ZERO, sub(length(pts_), ONE))
            z = get(pts_, atom(i))
            # the default of the point type, whichever it is, is its zero
            ck.equal(name + '/zero', z, ZERO if z.op != 'agg' else vec(ZERO, ZERO, ZERO))
            # knots that fit, so that every value is a combination of the zero points
            for k, c in ((0, rows), (1, cols)):
                ck.equal(name + '/fit-%d' % k, length(r.args[2].args[1 + k].args[1]), add(c, r.args[3].args[1 + k], ONE))
                ck.equal(name + '/some-%d' % k, int_lt(r.args[3].args[1 + k], c), TRUE)
        return go
    for w in (0, 1):
        ck.oblige('surface-derivative-' + 'uv'[w], surf(w), SS + '::derivative_' + 'uv'[w])
        ck.oblige('flat-derivative-' + 'uv'[w], flat_(w), SS + '::derivative_' + 'uv'[w])


# ------------------------------------------------------------------ Bezier
def bern(d, i, u):
    """Bernstein polynomial of degree d"""
    return atom(mk('app', 'spec:bern', d, i, u))


def _bern(env, vals):
    d, i, u = [env.scalar(x) for x in vals]
    if not 0 <= i <= d:
        return 0.0
    return math.comb(int(d), int(i)) * u ** i * (1 - u) ** (d - i)


BERN = {'spec:bern': _bern}


def bern_guess(*us):
    """the loop invariant of the triangular scheme: after k rounds the first k+1 values are the degree-k polynomials"""
    def guess(K, init, L, kinds):
        if kinds != ('seq',):
            return None
        n = length(init.args[1])
        for u in us:
            if not occurs(as_atom(u), L):
                continue

            def inv(k):
                return [comp(n, lambda i: ite(int_le(i, k), bern(k, i, u), ZERO) if k is not ZERO else ite(int_eq(i, ZERO), ONE, ZERO))]

            def nxt(k):
                def at(i):
                    a = ite(int_le(i, k), mul(sub(ONE, u), inv(k)[0].args and get(inv(k)[0], i)), ZERO)
                    b = ite(int_pos(i), mul(u, get(inv(k)[0], sub(i, ONE))), ZERO)
                    return ite(int_le(i, add(k, ONE)), add(a, b), ZERO)
                return [comp(n, at)]
            return inv, nxt
        return None
    return guess


def rational(v):
    w = v.args[-1]
    return vec(*[div(x, w) for x in v.args[1:-1]])


def p_bezier(ck):
    def curve(dim):
        def go():
            n = slen('P')
            at_least('P', 2)
            P = seq_of('P', vec(*[atom(proj_(sym('s'), (i,))) for i in range(dim)]))
            u = num('u')
            r, _ = ck.run('<%s<glam::DVec%d> as curve::Curve>::get_point' % (BC, dim), [rv(agg(BC, P)), u])
            s = [sum_(n, lambda i: mul(bern(sub(n, ONE), i, u), get(P, i).args[1 + k])) for k in range(dim)]
            want = vec(*s) if dim == 3 else rational(vec(*s))
            ck.equal('curve-point-%d' % dim, r, want, unfold=BERN, maxlen=6, guess=bern_guess(u), over=lambda rng: {sym('u'): rng.choice([0, 1, rng.uniform(-0.2, 1.2)])})
        return go
    ck.oblige('curve-point', curve(3), BC + '::get_point')
    ck.oblige('rational-curve-point', curve(4), BC + '::get_point')

    def surf(dim):
        def go():
            n, m = num('n', 'u'), num('m', 'u')
            facts.lo[sym('n')] = const(2)
            facts.lo[sym('m')] = const(2)
            fix_len('G', mul(n, m))
            G = agg('grid', seq_of('G', vec(*[atom(proj_(sym('s'), (i,))) for i in range(dim)])), n, m)
            u, v = num('u'), num('v')
            r, _ = ck.run('<surface::bezier::BezierSurface<glam::DVec%d> as surface::Surface>::get_point' % dim, [rv(agg('surface::bezier::BezierSurface', G)), u, v])
            s = [sum_(n, lambda i: sum_(m, lambda j: mul(bern(sub(n, ONE), i, u), bern(sub(m, ONE), j, v), get(G.args[1], add(mul(i, m), j)).args[1 + k]))) for k in range(dim)]
            want = vec(*s) if dim == 3 else rational(vec(*s))
            ck.equal('surface-point-%d' % dim, r, want, unfold=BERN, guess=bern_guess(u, v), over=lambda rng: {sym('u'): rng.choice([0, 1, rng.uniform(-0.2, 1.2)]), sym('v'): rng.choice([0, 1, rng.uniform(-0.2, 1.2)])})
        return go
    ck.oblige('surface-point', surf(3), 'surface::bezier::BezierSurface::get_point')
    ck.oblige('rational-surface-point', surf(4), 'surface::bezier::BezierSurface::get_point')


# ------------------------------------------------------------------ B-splines
def basis_fn(T, i, p, u, ix):
    """the normalised B-spline basis function N_{i,p}(u) over the knots T"""
    return atom(mk('app', 'spec:N', T, i, p, u, ix))


def span_of(T, p, u):
    """the span [T_i, T_{i+1}) of positive length that contains u (the last one at the end of the domain)"""
    n = len(T)
    lo, hi = p, n - 2 - p
    best = None
    for i in range(lo, hi + 1):
        if T[i] <= u < T[i + 1]:
            best = i
    if best is None:
        for i in range(hi, lo - 1, -1):
            if T[i] < T[i + 1] and u >= T[i]:
                return i
        return lo
    return best


def N_num(T, i, p, u, ix):
    if p == 0:
        return 1 if i == ix else 0
    r = 0
    if T[i + p] > T[i]:
        r += E_.ratio(u - T[i], T[i + p] - T[i]) * N_num(T, i, p - 1, u, ix)
    if T[i + p + 1] > T[i + 1]:
        r += E_.ratio(T[i + p + 1] - u, T[i + p + 1] - T[i + 1]) * N_num(T, i + 1, p - 1, u, ix)
    return r


def _N(env, vals):
    T, i, p, u, ix = vals
    i, p, u, ix = int(env.scalar(i)), int(env.scalar(p)), env.scalar(u), int(env.scalar(ix))
    if not isinstance(T, list) or i < 0 or i + p + 1 >= len(T):
        return 0
    return N_num(T, i, p, u, ix)


def rand_knots(rng, p, spans, clamped=None):
    """a knot vector of degree p with the given number of spans; interior knots have multiplicity up to p"""
    clamped = rng.random() < 0.7 if clamped is None else clamped
    vals = [rng.randint(-4, 4)]
    for _ in range(spans):
        tiny = getattr(rng, 'mode', None) == 'scale' and rng.random() < 0.5
        vals.append(vals[-1] + (Fraction(rng.randint(1, 9), 10 ** rng.randint(2, 10)) if tiny else rng.choice([1, 1, 2, 3]) * Fraction(1, 2)))
    if not getattr(rng, 'mode', None):
        vals = [float(v) for v in vals]
    T = []
    for k, v in enumerate(vals):
        end = k == 0 or k == len(vals) - 1
        T += [v] * (p + 1 if end else rng.choice([1, 1, 2]) if p > 1 else 1)
    if not clamped:
        a, b = T[0], T[-1]
        T = [a - Fraction(3, 4) * (p - j) for j in range(p)] + [a] + [t for t in T if a < t < b] + [b] + [b + Fraction(j + 1, 2) for j in range(p)]
    return T


class Basis:
    """value graph of the basis function evaluation with the span index given"""

    def __init__(self, ck, T='T', p='p', ix='ix', assume=True):
        self.Tn, self.pn, self.ixn = sym(T), sym(p), sym(ix)
        self.p = num(p, 'u')
        self.T = knots(T)
        self.n = slen(T)
        facts.lo[self.pn] = ONE
        facts.lo[mk('len', self.Tn)] = add(self.p, self.p, const(2))
        facts.lo[self.ixn] = self.p
        facts.hi[self.ixn] = sub(self.n, add(self.p, const(2)))
        facts.nonneg.add(self.ixn)
        self.ix = atom(self.ixn)
        self.u = None
        T_.near_hooks.append(self.nonzero)
        path_hooks.append(self.excluded)

    def spread(self, x):
        """(i, j) when x is +-(T[i] - T[j])"""
        if x.op != 'rat' or x.args[1] or len(x.args[0]) != 2:
            return
        (m1, c1), (m2, c2) = x.args[0]
        if c1 + c2 != 0 or len(m1) != 1 or len(m2) != 1:
            return
        for (a, b) in ((m1, m2), (m2, m1)):
            a, b = a[0][0], b[0][0]
            if a.op != 'idx' or b.op != 'idx' or a.args[0] is not self.Tn or b.args[0] is not self.Tn:
                return
            i, j = a.args[1], b.args[1]
            if i.op == 'rat' and j.op == 'rat' and not i.args[1] and not j.args[1]:
                yield i, j

    def nonzero(self, tag, x):
        """T[i] - T[j] > 0 for j <= ix < i"""
        if tag == 'ulps':
            for i, j in self.spread(x):
                lo, hi = T_.plo(sub(i, add(self.ix, ONE)).args[0]), T_.plo(sub(self.ix, j).args[0])
                if lo is not None and hi is not None and lo >= 0 and hi >= 0:
                    return FALSE
        return None

    def excluded(self, c, b, system):
        if c.args[0] == 'ulps' and b == 1:
            for i, j in self.spread(c.args[1]):
                if system.infeasible([lin.lin(sub(self.ix, i))]) and system.infeasible([lin.lin(sub(sub(j, self.ix), ONE))]):
                    return True
        return False

    def hook(self, ip, args, st, dty):
        return self.ix

    def guess(self, u):
        T, ix, n = self.Tn, self.ix, self.n

        def guess(K, init, L, kinds):
            if kinds != ('seq',) or not occurs(self.Tn, L):
                return None

            def val(i, k):
                if k is ZERO:
                    return ite(int_eq(i, ix), ONE, ZERO)
                return ite(int_le(sub(ix, k), i), ite(int_le(i, ix), basis_fn(T, i, k, u, ix), ZERO), ZERO)

            def inv(k):
                return [comp(sub(n, ONE), lambda i: val(i, k))]

            def nxt(k):
                t = self.T.args[1]

                def at(i):
                    k1 = add(k, ONE)
                    a = mul(inv0(sub(get(t, add(i, k1)), get(t, i))), sub(u, get(t, i)), val(i, k))
                    b = mul(inv0(sub(get(t, add(i, k1, ONE)), get(t, add(i, ONE)))), sub(get(t, add(i, k1, ONE)), u), val(add(i, ONE), k))
                    s = ite(int_eq(i, ix), a, ite(int_eq(add(i, k1), ix), b, add(a, b)))
                    return ite(int_le(sub(ix, k1), i), ite(int_le(i, ix), s, ZERO), ZERO)
                return [comp(sub(n, ONE), at)]
            return inv, nxt
        return guess


KV = 'knot::KnotVector'


def p_bspline(ck):
    def over(b, u):
        def f(rng):
            p = rng.randint(1, 3)
            T = rand_knots(rng, p, rng.randint(1, 3))
            a, z = T[p], T[len(T) - 1 - p]
            x = rng.choice([a, z, rng.uniform(a, z), rng.uniform(a, z), rng.choice([t for t in T if a <= t <= z])])
            return {b.Tn: T, b.pn: p, b.ixn: span_of(T, p, x), u: x}
        return f

    def basis():
        b = Basis(ck)
        u = num('u')
        r, _ = ck.run(KV + '::bspline_basis', [rv(b.T), b.p, u], hooks={KV + '::span_index': b.hook, 'utils::inv_or_zero': lambda ip, args, st, dty: inv0(args[0])})
        want = comp(sub(b.n, add(b.p, ONE)), lambda i: ite(int_le(sub(b.ix, b.p), i), ite(int_le(i, b.ix), basis_fn(b.Tn, i, b.p, u, b.ix), ZERO), ZERO))
        ck.equal('basis', r, want, unfold=SPLINE, guess=b.guess(u), over=over(b, sym('u')))
    ck.oblige('basis', basis, KV + '::bspline_basis', 150)

    def inv():
        x = num('x')
        r, _ = ck.run('utils::inv_or_zero', [x])
        ck.equal('inv-or-zero', r, inv0(x))
    ck.oblige('inv-or-zero', inv, 'utils::inv_or_zero')

    def small(p, n, ix):
        """the same with given sizes: the loops are unrolled"""
        def go():
            T, u = fix_len('T', const(n)), num('u')
            facts.lo[sym('ix')] = facts.hi[sym('ix')] = const(ix)
            r, _ = ck.run(KV + '::bspline_basis', [rv(knots('T')), const(p), u], hooks={KV + '::span_index': lambda ip, args, st, dty: const(ix)}, unroll=24)
            want = comp(const(n - 1 - p), lambda i: basis_fn(sym('T'), i, const(p), u, const(ix)))

            def ov(rng):
                for _ in range(400):
                    t = rand_knots(rng, p, rng.randint(1, n))
                    if len(t) == n:
                        x = rng.choice([t[p], t[n - 1 - p], rng.uniform(t[p], t[n - 1 - p])] + t[p:n - p])
                        if t[ix] < t[ix + 1] and span_of(t, p, x) == ix:
                            return {sym('T'): t, sym('u'): x}
                raise E_.Undef('no knots')
            ck.equal('basis/%d.%d.%d' % (p, n, ix), r, want, unfold=SPLINE, over=ov)
        ck.oblige('small', go, KV + '::bspline_basis', 60)
    for p in range(1, 4 if ck.tier == 'quick' else 5):
        for n in (2 * p + 2, 2 * p + 3):
            for ix in range(p, n - p - 1):
                small(p, n, ix)

    def basis_hook(ip, args, st, dty):
        """the vector of basis values: one per control point"""
        kn = ip.deref(st, args[0])
        t = as_base(kn.args[1])
        return base(mk('app', 'B', t, args[1], args[2]), mk('shape', num('s')))

    def as_base(s):
        return s.args[0] if s.op == 'base' else s

    def B(T, p, u, i):
        return get(base(mk('app', 'B', sym(T), p, u), mk('shape', num('s'))), i)

    def blen(t):
        if t.op == 'app' and t.args[0] == 'B':
            return sub(atom(mk('len', t.args[1])), add(t.args[2], ONE))
        return None

    def curve(dim):
        def go():
            T_.len_hooks.append(blen)
            p, u = num('p', 'u'), num('u')
            facts.lo[sym('p')] = ONE
            at_least('T', add(p, p, const(2)))
            fix_len('P', sub(slen('T'), add(p, ONE)))
            P = seq_of('P', vec(*[atom(proj_(sym('s'), (i,))) for i in range(dim)]))
            r, _ = ck.run('<%s<glam::DVec%d> as curve::Curve>::get_point' % (SC, dim), [rv(agg(SC, P, knots('T'), p)), u], hooks={KV + '::bspline_basis': basis_hook})
            s = [sum_(length(P), lambda i: mul(B('T', p, u, i), get(P, i).args[1 + k])) for k in range(dim)]
            ck.equal('curve-point-%d' % dim, r, vec(*s) if dim == 3 else rational(vec(*s)))
        return go
    ck.oblige('curve-point', curve(3), SC + '::get_point')
    ck.oblige('rational-curve-point', curve(4), SC + '::get_point')

    def surf(dim):
        def go():
            T_.len_hooks.append(blen)
            p, q, u, v = num('p', 'u'), num('q', 'u'), num('u'), num('v')
            at_least('U', add(p, p, const(2)))
            at_least('V', add(q, q, const(2)))
            n, m = sub(slen('U'), add(p, ONE)), sub(slen('V'), add(q, ONE))
            fix_len('G', mul(n, m))
            G = agg('grid', seq_of('G', vec(*[atom(proj_(sym('s'), (i,))) for i in range(dim)])), n, m)
            r, _ = ck.run('<%s<glam::DVec%d> as surface::Surface>::get_point' % (SS, dim), [rv(agg(SS, G, agg('tuple', knots('U'), knots('V')), agg('tuple', p, q))), u, v], hooks={KV + '::bspline_basis': basis_hook})
            s = [sum_(n, lambda i: sum_(m, lambda j: mul(B('U', p, u, i), B('V', q, v, j), get(G.args[1], add(mul(i, m), j)).args[1 + k]))) for k in range(dim)]
            ck.equal('surface-point-%d' % dim, r, vec(*s) if dim == 3 else rational(vec(*s)))
        return go
    ck.oblige('surface-point', surf(3), SS + '::get_point')
    ck.oblige('rational-surface-point', surf(4), SS + '::get_point')

    def new():
        p, q, n, m = [num(x, 'u') for x in 'pqnm']
        for a, b in (('n', p), ('m', q)):
            facts.lo[sym(a)] = add(b, ONE)
        fix_len('G', mul(n, m))
        fix_len('U', add(n, p, ONE))
        fix_len('V', add(m, q, ONE))
        G = agg('grid', seq3('G'), n, m)
        for k in 'pq':
            facts.hi[sym(k)] = const(255)
        r, _ = ck.run(SS + '::new', [G, agg('tuple', knots('U'), knots('V')), agg('tuple', p, q)])
        ck.equal('surface-new', r, agg(SS, G, agg('tuple', knots('U'), knots('V')), agg('tuple', p, q)), strict_panic=True)
        r, _ = ck.run(SS + '::uniform_clamped', [G, agg('tuple', p, q)])

        def un(p, d):
            return kvec(cat(comp(add(p, ONE), lambda i: ZERO), comp(sub(d, ONE), lambda i: div(add(i, ONE), d)), comp(add(p, ONE), lambda i: ONE)))
        ck.equal('surface-uniform', r, agg(SS, G, agg('tuple', un(p, sub(n, p)), un(q, sub(m, q))), agg('tuple', p, q)), strict_panic=True)
    ck.oblige('surface-constructors', new, SS + '::new')


SPLINE = {'spec:N': _N}


# ------------------------------------------------------------------ knot vectors
def rand_sorted(rng, n):
    x = [float(rng.randint(-4, 0))]
    while len(x) < n:
        x.append(x[-1] + E_.gap(rng))
    return x


def last_le(T, n, u):
    """the last index whose knot is not above u; n - 1 - (number of trailing knots above u)"""
    t = T.args[1]
    k = first(n, lambda b: real_le(get(t, sub(sub(n, b), ONE)), u))
    return sub(sub(n, k), ONE), int_lt(k, n)


def mult(T, n, x):
    return sum_(n, lambda i: ite(T_.ulps(sub(x, get(T.args[1], i))), ONE, ZERO))


def kvec(s):
    return agg(KV, s)


def p_knots(ck):
    T, n, u = knots('T'), slen('T'), num('u')

    def over(rng):
        k = rand_sorted(rng, rng.randint(2, 7))
        return {sym('T'): k, sym('u'): rng.choice(k + [k[0] - 1, k[-1] + 1, rng.uniform(k[0], k[-1]), rng.uniform(k[0], k[-1])])}

    def o(name, fname, args, want, over=over, lo=2, st=None, out=None, **kw):
        def go():
            at_least('T', lo)
            r, s = ck.run(fname, args() if callable(args) else args, st() if st else None)
            ck.equal(name, r if out is None else out(r, s), want(), over=over, **kw)
        ck.oblige(name, go, fname)

    o('multiplicity', KV + '::multiplicity', [rv(T), num('i', 'u')], lambda: mult(T, n, get(T.args[1], num('i'))),
      over=lambda rng: (lambda d: {**d, sym('i'): rng.randrange(len(d[sym('T')]))})(over(rng)))
    o('normalize', KV + '::normalize', [rv(T)], lambda: kvec(comp(n, lambda i: div(sub(get(T.args[1], i), get(T.args[1], ZERO)), sub(get(T.args[1], sub(n, ONE)), get(T.args[1], ZERO))))))
    o('shrink', KV + '::shrink', [rv(T)], lambda: kvec(comp(sub(n, const(2)), lambda i: get(T.args[1], add(i, ONE)))))
    o('range', KV + '::range', [rv(T)], lambda: agg('tuple', get(T.args[1], ZERO), get(T.args[1], sub(n, ONE))))

    L = T.args[1]
    o('new', KV + '::new', [L], lambda: T)
    o('from', '<knot::KnotVector as std::convert::From<std::vec::Vec<f64>>>::from', [L], lambda: T)
    o('as-ref', '<knot::KnotVector as std::convert::AsRef<[f64]>>::as_ref', [rv(T)], lambda: rv(L))
    o('deref', '<knot::KnotVector as std::ops::Deref>::deref', [rv(T)], lambda: rv(L))

    def spans():
        p = num('p', 'u')
        facts.lo[mk('len', sym('T'))] = add(p, ONE)
        r, _ = ck.run(KV + '::spans', [rv(T), p])
        ck.equal('spans', r, comp(sub(n, p), lambda i: sub(get(T.args[1], add(i, p)), get(T.args[1], i))))
    ck.oblige('spans', spans, KV + '::spans')

    def from_vm():
        V, M = base(sym('V'), mk('shape', num('s'))), base(sym('M'), mk('shape', num('s')))
        fix_len('M', slen('V'))
        r, _ = ck.run(KV + '::from_values_and_multiplicities', [V, M])
        want = kvec(flat(slen('V'), lambda i: comp(get(M, i), lambda j: get(V, i))))

        def ov(rng):
            k = rng.randint(1, 4)
            return {sym('V'): [rng.uniform(-1, 1) for _ in range(k)], sym('M'): [rng.randint(0, 3) for _ in range(k)]}
        ck.equal('values-and-multiplicities', r, want, over=ov)
    ck.oblige('values-and-multiplicities', from_vm, KV + '::from_values_and_multiplicities')

    def const_seq(k, x):
        return comp(k, lambda i: x)
    p, d = num('p', 'u'), num('d', 'u')
    o('bezier-knots', KV + '::bezier_knot', [p], lambda: kvec(cat(const_seq(add(p, ONE), ZERO), const_seq(add(p, ONE), ONE))), over=None)

    def uniform():
        facts.lo[sym('d')] = ONE
        r, _ = ck.run(KV + '::uniform_knot', [p, d])
        ck.equal('uniform-knots', r, kvec(cat(const_seq(add(p, ONE), ZERO), comp(sub(d, ONE), lambda i: div(add(i, ONE), d)), const_seq(add(p, ONE), ONE))))
    ck.oblige('uniform-knots', uniform, KV + '::uniform_knot')

    def add_knot():
        st = {'K': T}
        r, s = ck.run(KV + '::add_knot', [mk('ref', 'K', ()), u], st)
        i, ex = last_le(T, n, u)
        at = add(i, ONE)
        want = cat(comp(at, lambda k: get(T.args[1], k)), unit(u), comp(sub(n, at), lambda k: get(T.args[1], add(at, k))))
        ck.equal('add-knot/index', r, at, over=over)
        ck.equal('add-knot/knots', s['K'], kvec(want), over=over)
    ck.oblige('add-knot', add_knot, KV + '::add_knot')

    def span():
        at_least('T', 2)
        r, _ = ck.run(KV + '::span_index', [rv(T), u])
        i, ex = last_le(T, n, u)
        t = T.args[1]
        want = ite(int_eq(i, sub(n, ONE)), sub(i, mult(T, n, get(t, i))), i)

        def ov(rng):
            k = rand_sorted(rng, rng.randint(2, 7))
            if k[0] == k[-1]:
                raise E_.Undef('no span')
            return {sym('T'): k, sym('u'): rng.choice(k + [k[-1] + 1, k[0] - 1, rng.uniform(k[0], k[-1]), rng.uniform(k[0], k[-1])])}
        ck.equal('span-index', r, want, assume=ex, over=ov)
        ck.equal('span-index/below', r, sub(mult(T, n, get(t, ZERO)), ONE), assume=ite(ex, FALSE, TRUE), over=ov)
    ck.oblige('span-index', span, KV + '::span_index')
