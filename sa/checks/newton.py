"""Newton projection onto curves and surfaces."""
from fractions import Fraction

import models
from framework import *
from checks.eval_ import inv0, rand_sorted
from checks.geom import GP, distinct, field, pt, pts, curve_fn, surf_fn

FNP = 'utils::find_nearest_parameter'


def clamp(t, a, b):
    """kept as a symbol, with its meaning for the random interpretation (see P15)"""
    return vcall('clamp', 1, t, a, b)


def _clamp(env, vals):
    t, a, b = vals
    return min(max(t, min(a, b)), max(a, b))


def chook(ip, args, st, dty):
    r = ip.deref(st, args[1])
    return clamp(ip.snap(st, args[0]), r.args[1], r.args[2])


CL = {'utils::clamp_in_range': chook}
UN = {'clamp': _clamp, GP: lambda env, vals: smooth()(env, vals), 'surface::Surface::get_point': lambda env, vals: smooth()(env, vals)}


def divided(a, b, n):
    """the values of uniform division"""
    return lambda i: add(a, mul(div(i, n), sub(b, a)))


def close(x):
    return T_.near(x, const(Fraction(1, 10**7)))


def smooth():
    """uninterpreted points as quadratic functions of their parameters, of very different sizes"""
    def f(env, vals):
        tags, nums = [], []
        E_.flatten(vals[0], tags, nums)
        h = E_.h64(env.seed, *tags)
        size = 10.0 ** -[0, 0, 1, 2, 4, 6, 8][h % 7] if E_.h64(env.seed, 99) % 3 else 1.0
        us = [float(x) for x in vals[1:]]
        k = lambda i, j: E_.u01(E_.h64(h, i, j)) * 4 - 2
        return ('agg', 'vec') + tuple(size * (k(i, 0) + sum(k(i, 2 * j + 1) * u + k(i, 2 * j + 2) * u * u / 4 for j, u in enumerate(us))) for i in range(3))
    return f


def small(rng):
    x = pt(rng)
    s = rng.choice([1, 1e-2, 1e-4])
    return ('agg', 'vec') + tuple(float(c) * s for c in x[2:])


def step_curve(u, q, P, D1, D2, a, b):
    """(stop, next parameter) of one Newton step"""
    d = vsub(P(u), q)
    t = D1(u)
    f = dot(t, d)
    fp = add(dot(D2(u), d), norm2(t))
    stop = models.b_or(close(norm2(d)), close(f))
    return stop, clamp(sub(u, div(f, fp)), a, b)


def iterated(u0, n, step):
    """at most n rounds from u0, ended by the first that stops"""
    at = lambda k: fold_num(k, u0, lambda _, u: step(u)[1])
    return at(first(n, lambda k: step(at(k))[0]))


def iterate(u, n, step):
    if n == 0:
        return u
    stop, nxt = step(u)
    return ite(stop, u, iterate(nxt, n - 1, step))


def p_newton(ck):
    a, b, n = num('a'), num('b'), num('n', 'u')
    q = v3('q')

    def curve_of(s):
        return lambda u: vcall(GP, 3, sym(s), u)

    def curve(k):
        def go():
            facts.lo[sym('n')] = ONE
            P, D1, D2 = curve_of('C'), curve_of('C1'), curve_of('C2')
            r, _ = ck.run(FNP, [rv(sym('C')), rv(sym('C1')), rv(sym('C2')), q, agg('tuple', a, b), n, num('trials', 'u') if k is None else const(k)], attempt=0 if k is None else k + 1, hooks=CL)
            D = divided(a, b, n)
            i = argmin_of(add(n, ONE), lambda i: norm2(vsub(q, P(D(i)))))
            u0 = D(i)
            want = (iterated if k is None else iterate)(u0, num('trials', 'u') if k is None else k, lambda u: step_curve(u, q, P, D1, D2, a, b))
            ck.equal('curve-%s' % k, r, want, unfold=UN, over=lambda rng: {sym('q'): small(rng), sym('n'): rng.randint(1, 4), sym('trials'): rng.randint(0, 3)}, trials=200)
        return go
    for k in (0, 1, None):
        ck.oblige('curve-%s' % k, curve(k), FNP)

    # ---- what the curves hand to it
    BC, SC, KV = 'curve::bezier::BezierCurve', 'curve::bspline::BSplineCurve', 'knot::KnotVector'

    def call(*args):
        return vcall(FNP, 1, *args)

    def hook(ip, args, st, dty):
        return call(*[ip.snap(st, x) for x in args])

    def hodograph(P, k):
        """control points of the k-th derivative of a Bezier curve"""
        for _ in range(k):
            P = (lambda P, n: comp(n, lambda i: vscale(n, vsub(get(P, add(i, ONE)), get(P, i)))))(P, sub(length(P), ONE))
        return P

    def bezier():
        at_least('P', 3)
        P = seq3('P')
        S = agg(BC, P)
        r, _ = ck.run(curve_fn(BC + '<glam::DVec3>', 'project'), [rv(S), q], hooks={FNP: hook})
        d = sub(length(P), ONE)
        want = call(S, agg(BC, hodograph(P, 1)), agg(BC, hodograph(P, 2)), q, agg('tuple', ZERO, ONE), mul(const(4), d), const(10))
        ck.equal('bezier', r, want, strict_panic=True)
    ck.oblige('bezier', bezier, BC + '::project')

    def phook(ip, args, st, dty):
        return vcall('fraction', 1, field(ip.snap(st, args[0]), 0), ip.snap(st, args[1]))
    POLY = {curve_fn('curve::polyline::Polyline', 'project'): phook}

    def fraction(env, vals):
        P, q = [np_(x) for x in vals[0]], np_(vals[1])
        best, done = None, 0.0
        for a, b in zip(P, P[1:]):
            ab = [y - x for x, y in zip(a, b)]
            l2 = sum(x * x for x in ab)
            t = min(1.0, max(0.0, sum((y - x) * z for x, y, z in zip(a, q, ab)) / l2)) if l2 else 0.0
            d = sum((x + t * z - y) ** 2 for x, y, z in zip(a, q, ab))
            if best is None or d < best[0]:
                best = (d, done + t * l2 ** 0.5)
            done += l2 ** 0.5
        return best[1] / done

    def bezier1():
        fix_len('P', const(2))
        P = seq3('P')
        r, _ = ck.run(curve_fn(BC + '<glam::DVec3>', 'project'), [rv(agg(BC, P)), q], hooks=POLY)
        ck.equal('bezier-line', r, vcall('fraction', 1, P, q), strict_panic=True, unfold={'fraction': fraction},
                 over=lambda rng: {sym('P'): distinct(rng, 2), sym('q'): pt(rng)})
    ck.oblige('bezier-line', bezier1, BC + '::project')

    def knot_hodo(P, T, p):
        return comp(sub(length(P), ONE), lambda i: vscale(mul(p, inv0(sub(get(T, add(i, p, ONE)), get(T, add(i, ONE))))), vsub(get(P, add(i, ONE)), get(P, i))))

    def bspline():
        p = num('p', 'u')
        facts.lo[sym('p')] = const(2)
        fix_len('P', sub(slen('T'), add(p, ONE)))
        at_least('T', add(p, p, const(2)))
        P, T = seq3('P'), seq_of('T', num('s'))
        S = agg(SC, P, agg(KV, T), p)
        r, _ = ck.run(curve_fn(SC + '<glam::DVec3>', 'project'), [rv(S), q], hooks={FNP: hook})
        T1 = comp(sub(slen('T'), const(2)), lambda i: get(T, add(i, ONE)))
        T2 = comp(sub(slen('T'), const(4)), lambda i: get(T, add(i, const(2))))
        P1 = knot_hodo(P, T, p)
        P2 = knot_hodo(P1, T1, sub(p, ONE))
        want = call(S, agg(SC, P1, agg(KV, T1), sub(p, ONE)), agg(SC, P2, agg(KV, T2), sub(p, const(2))), q,
                    agg('tuple', get(T, ZERO), get(T, sub(slen('T'), ONE))), mul(const(4), length(P)), const(10))

        def ov(rng):
            p_ = rng.randint(2, 4)
            n = p_ + rng.randint(1, 4)
            return {sym('p'): p_, sym('P'): pts(rng, n), sym('T'): rand_sorted(rng, n + p_ + 1), sym('q'): pt(rng)}
        ck.equal('bspline', r, want, strict_panic=True, over=ov)
    ck.oblige('bspline', bspline, SC + '::project')

    def bspline1():
        fix_len('P', sub(slen('T'), const(2)))
        at_least('T', 4)
        P, T = seq3('P'), seq_of('T', num('s'))
        seg = lambda i: norm_(vsub(get(P, add(i, ONE)), get(P, i)))
        n = sub(length(P), ONE)
        L = sum_(n, seg)

        r, _ = ck.run(curve_fn(SC + '<glam::DVec3>', 'project'), [rv(agg(SC, P, agg(KV, T), ONE)), q], hooks=POLY)
        s = mul(vcall('fraction', 1, P, q), L)
        pre = lambda k: sum_(k, seg)
        k = first(n, lambda i: real_le(s, add(pre(i), seg(i))))
        at = add(get(T, add(k, ONE)), mul(mul(sub(s, pre(k)), inv0(seg(k))), sub(get(T, add(k, const(2))), get(T, add(k, ONE)))))
        want = ite(int_lt(k, n), at, get(T, add(n, ONE)))

        def ov(rng):
            n = rng.randint(2, 5)
            T = sorted(rng.uniform(0, 9) for _ in range(n + 2))
            P = distinct(rng, n)
            if n > 2 and rng.random() < 0.4:
                P[1] = P[0]
            return {sym('P'): P, sym('T'): T, sym('q'): pt(rng) if rng.random() < 0.5 else P[0]}
        ck.equal('bspline-line', r, want, strict_panic=True, over=ov, unfold={'fraction': fraction})
    ck.oblige('bspline-line', bspline1, SC + '::project')

    # ---- surfaces
    BS = 'surface::bspline::BSplineSurface'

    def surface():
        def go():
            n, m = num('n', 'u'), num('m', 'u')
            p, d = num('p', 'u'), num('d', 'u')
            U, V = seq_of('U', num('s')), seq_of('V', num('s'))
            facts.lo[sym('n')] = facts.lo[sym('m')] = ONE
            S = agg(BS, agg('grid', seq3('G'), n, m), agg('tuple', agg(KV, U), agg(KV, V)), agg('tuple', p, d))
            Q = base(sym('Q'), shape(v3('s')))
            SP = 'surface::Surface::get_point'
            gp = [x for x in ck.prog.norm if x.startswith('<surface::bspline::BSplineSurface<glam::DVec3> as surface::Surface>::get_point')]
            hooks = dict(CL)
            for x in ck.prog.norm:
                if x.endswith('derivative_u') or x.endswith('derivative_v'):
                    hooks[x] = (lambda w: lambda ip, args, st, dty: mk('app', w, ip.snap(st, args[0])))(x[-1])
            for x in gp:
                hooks[x] = lambda ip, args, st, dty: vcall(SP, 3, ip.snap(st, args[0]), ip.snap(st, args[1]), ip.snap(st, args[2]))
            r, _ = ck.run(BS + '::project_points', [rv(S), rv(Q)], hooks=hooks)
            u0, u1 = get(U, ZERO), get(U, sub(slen('U'), ONE))
            w0, w1 = get(V, ZERO), get(V, sub(slen('V'), ONE))
            f = mul(const(4), n), mul(const(4), m)
            DU, DV = divided(u0, u1, f[0]), divided(w0, w1, f[1])
            D = lambda *ws: (lambda t: t)(nest(S, ws))
            at = lambda t, u, v: vcall(SP, 3, t, u, v)

            def one(i):
                x = get(Q, i)
                col = lambda k: argmin_of(add(f[1], ONE), lambda j: norm2(vsub(x, at(S, DU(k), DV(j)))))
                row = argmin_of(add(f[0], ONE), lambda k: norm2(vsub(x, at(S, DU(k), DV(col(k))))))

                def step(u, v):
                    e = vsub(at(S, u, v), x)
                    su, sv = at(D('u'), u, v), at(D('v'), u, v)
                    gu, gv = dot(su, e), dot(sv, e)
                    stop = models.b_or(close(norm2(e)), models.b_and(close(gu), close(gv)))
                    a11 = add(norm2(su), dot(e, at(D('u', 'u'), u, v)))
                    a12 = add(dot(su, sv), dot(e, at(D('u', 'v'), u, v)))
                    a21 = add(dot(su, sv), dot(e, at(D('v', 'u'), u, v)))
                    a22 = add(norm2(sv), dot(e, at(D('v', 'v'), u, v)))
                    det = sub(mul(a11, a22), mul(a12, a21))
                    du = div(sub(mul(a12, gv), mul(a22, gu)), det)
                    dv = div(sub(mul(a21, gu), mul(a11, gv)), det)
                    return stop, clamp(add(u, du), u0, u1), clamp(add(v, dv), w0, w1)
                return iterated2(DU(row), DV(col(row)), const(20), step)
            ck.equal('surface', r, comp(slen('Q'), one), unfold=UN, over=lambda rng: {sym('Q'): [small(rng)], sym('n'): 1, sym('m'): rng.randint(1, 2)})
        return go
    ck.oblige('surface', surface(), BS + '::project_points')


def nest(S, ws):
    for w in ws:
        S = mk('app', w, S)
    return S


def iterated2(u0, v0, n, step):
    at = lambda k: fold_nums(k, [u0, v0], lambda _, u, v: step(u, v)[1:])
    return vec(*at(first(n, lambda k: step(*at(k))[0])))


def np_(v):
    return [float(x) for x in v[2:]]
