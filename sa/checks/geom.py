"""Analytic geometry: parametrisations, projections, swept surfaces, polylines, sampling."""
import math

from fractions import Fraction

from framework import *
from checks.eval_ import rand_sorted

CI = 'curve::circle::Circle'
LI = 'curve::line::Line'
PL = 'curve::polyline::Polyline'
CY = 'surface::cylinder::Cylinder'
PN = 'surface::plane::Plane'
TAU = mul(const(2), T_.PI)


def curve_fn(c, m):
    return '<%s as curve::Curve>::%s' % (c, m)


def surf_fn(c, m):
    return '<%s as surface::Surface>::%s' % (c, m)


def frame_over(rng, *names):
    d = {}
    for n in names:
        if getattr(rng, 'mode', None) and rng.random() < 0.7:
            # axes along the coordinate axes
            q = rng.choice([(1, 0, 0, 0), (0, 1, 0, 0), (1, 1, 0, 0), (1, 0, 0, 1), (1, 1, 1, 1), (1, 0, -1, 0), (0, 0, 0, 1)])
            d.update({sym('%s.q%d' % (n, i)): q[i] for i in range(4)})
            continue
        for i in range(4):
            d[sym('%s.q%d' % (n, i))] = rng.uniform(-1, 1) + (Fraction(3, 2) if i == 0 else 0)
    return d


def turn(rng):
    return 0 if getattr(rng, 'mode', None) and rng.random() < 0.3 else rng.uniform(0.01, 6.2)


def angle(y, x):
    """angle of (x, y) in [0, 2 pi)"""
    a = fn('atan2', y, x)
    return ite(real_lt(a, ZERO), add(a, TAU), a)


def mod_tau(rng):
    return rng.uniform(0.01, 2 * math.pi - 0.01)


def p_charts(ck):
    X, Y, Z = unit_frame('f')
    O, P = v3('O'), v3('P')
    u, v, a, r, d = num('u'), num('v'), num('a'), num('r', 'pos'), num('d')

    def rodrigues(a):
        c, s = fn('cos', a), fn('sin', a)
        return vadd(vscale(c, X), vscale(s, Y))

    def line():
        D = v3('D')
        L = agg(LI, O, D)
        q, _ = ck.run(curve_fn(LI, 'get_point'), [rv(L), u])
        ck.equal('line/point', q, vadd(O, vscale(u, D)))
        p, _ = ck.run(curve_fn(LI, 'project'), [rv(L), q])
        ck.equal('line/round-trip', p, u)
        p, _ = ck.run(curve_fn(LI, 'project'), [rv(L), P])
        f, _ = ck.run(curve_fn(LI, 'get_point'), [rv(L), p])
        ck.equal('line/foot', dot(vsub(P, f), D), ZERO)
    ck.oblige('line', line, LI)

    def circle():
        C = agg(CI, O, r, Z, X)
        q, _ = ck.run(curve_fn(CI, 'get_point'), [rv(C), a])
        ov = lambda rng: {**frame_over(rng, 'f'), **{sym('a'): turn(rng)}}
        ck.equal('circle/point', q, vadd(O, vscale(r, rodrigues(a))), over=ov)
        p, _ = ck.run(curve_fn(CI, 'project'), [rv(C), P])
        w = vsub(P, O)
        ck.equal('circle/project', p, angle(dot(w, Y), dot(w, X)), over=lambda rng: frame_over(rng, 'f'))
        p, _ = ck.run(curve_fn(CI, 'project'), [rv(C), q])
        ck.equal('circle/round-trip', p, a, over=ov)
    ck.oblige('circle', circle, CI)

    def plane():
        S = agg(PN, O, Z, X, Y)
        q, _ = ck.run(surf_fn(PN, 'get_point'), [rv(S), u, v])
        ck.equal('plane/point', q, vadd(O, vadd(vscale(u, X), vscale(v, Y))))
        p, _ = ck.run(PN + '::project', [rv(S), q])
        ck.equal('plane/round-trip', p, vec(u, v))
        p, _ = ck.run(PN + '::project', [rv(S), P])
        w = vsub(P, O)
        ck.equal('plane/project', p, vec(dot(w, X), dot(w, Y)))
    ck.oblige('plane', plane, PN)

    def cylinder():
        S = agg(CY, O, Z, X, r)
        ov = lambda rng: {**frame_over(rng, 'f'), **{sym('a'): turn(rng)}}
        q, _ = ck.run(surf_fn(CY, 'get_point'), [rv(S), u, a])
        ck.equal('cylinder/point', q, vadd(O, vadd(vscale(u, Z), vscale(r, rodrigues(a)))), over=ov)
        p, _ = ck.run(CY + '::project', [rv(S), P])
        w = vsub(P, O)
        ck.equal('cylinder/project', p, vec(dot(w, Z), angle(dot(w, Y), dot(w, X))), over=lambda rng: frame_over(rng, 'f'))
        p, _ = ck.run(CY + '::project', [rv(S), q])
        ck.equal('cylinder/round-trip', p, vec(u, a), over=ov)
    ck.oblige('cylinder', cylinder, CY)

    def ring():
        S = agg(CY, O, Z, X, r)
        p, _ = ck.run(CY + '::project_to_ring', [rv(S), P, d])
        w = vsub(P, O)
        k = div(d, sub(d, dot(w, Z)))
        ck.equal('ring/project', p, vec(mul(k, dot(w, X)), mul(k, dot(w, Y))), over=lambda rng: frame_over(rng, 'f'))
        q = vadd(O, vadd(vscale(u, Z), vscale(r, rodrigues(a))))
        p, _ = ck.run(CY + '::project_to_ring', [rv(S), q, d])
        b, _ = ck.run(CY + '::generate_point_from_ring', [rv(S), p, d])

        def ov(rng):
            z = rng.uniform(-3, 3)
            return {**frame_over(rng, 'f'), **{sym('a'): turn(rng), sym('u'): z, sym('d'): abs(z) * rng.uniform(1.1, 4) + 0.1}}
        ck.equal('ring/round-trip', b, q, over=ov)
    ck.oblige('ring', ring, CY)


# ------------------------------------------------------------------ arc sense
def p_sense(ck):
    a0, a1 = num('a0'), num('a1')
    X, Y, Z = unit_frame('f')

    def circle(same):
        def go():
            C = agg(CI, v3('O'), num('r', 'pos'), Z, X)
            r, _ = ck.run(curve_fn(CI, 'refine_parameter_range'), [rv(C), agg('tuple', a0, a1), TRUE if same else FALSE])
            g0, g1 = field(r, 0), field(r, 1)

            def ov(rng):
                x = rng.uniform(0, 6.28)
                y = rng.choice([x, x, rng.uniform(0, 6.28), rng.uniform(0, 6.28), 0.0])
                return {sym('a0'): rng.choice([x, x, 0.0]), sym('a1'): y}
            nm = 'circle/%s' % ('same' if same else 'opposite')
            lo = b_and(real_le(ZERO, a0), real_lt(a0, TAU))
            hi = b_and(real_le(ZERO, a1), real_lt(a1, TAU))
            dom = b_and(lo, hi)
            d = sub(g1, g0) if same else sub(g0, g1)
            ck.equal(nm + '/start', vec(fn('cos', g0), fn('sin', g0)), vec(fn('cos', a0), fn('sin', a0)), over=ov)
            ck.equal(nm + '/end', vec(fn('cos', g1), fn('sin', g1)), vec(fn('cos', a1), fn('sin', a1)), over=ov)
            ck.equal(nm + '/sense', ite(real_lt(ZERO, d), ONE, ZERO), ONE, assume=dom, over=ov, free=(sym('a0'), sym('a1')))
            ck.equal(nm + '/one-turn', ite(real_le(d, TAU), ONE, ZERO), ONE, assume=dom, over=ov, free=(sym('a0'), sym('a1')))
        return go
    for s in (True, False):
        ck.oblige('circle/%s' % s, circle(s), CI + '::refine_parameter_range')

    def other(c, self_):
        def go():
            f = curve_fn(c, 'refine_parameter_range')
            if not ck.has(f):
                f = 'curve::Curve::refine_parameter_range'
            for s in (TRUE, FALSE):
                r, _ = ck.run(f, [rv(self_), agg('tuple', a0, a1), s])
                ck.equal('%s/%s' % (c.split('::')[-1], s.op), r, agg('tuple', a0, a1))
        return go
    for c, v in ((LI, agg(LI, v3('O'), v3('D'))), (PL, sym('PL')), ('curve::bezier::BezierCurve<glam::DVec3>', sym('BZ')), ('curve::bspline::BSplineCurve<glam::DVec3>', sym('BS'))):
        ck.oblige(c, other(c, v), c)


def field(t, i):
    """component of an aggregate, through conditions"""
    return T_.lift_leaves(lambda x: x if x is BOT else x.args[1 + i], t)


# ------------------------------------------------------------------ sampling
CS = 'curve::CurveSegment'
GP = 'curve::Curve::get_point'
SP = 'surface::Surface::get_point'


def p_sampling(ck):
    a, b, n = num('a'), num('b'), num('n', 'u')

    def uniform():
        facts.lo[sym('n')] = ONE
        r, _ = ck.run('utils::uniform_divide', [agg('tuple', a, b), n])
        ck.equal('uniform', r, comp(add(n, ONE), lambda i: ite(int_eq(i, n), b, add(a, mul(div(i, n), sub(b, a))))), strict_panic=True,
                 over=lambda rng: {sym('n'): rng.randint(1, 6)})
    ck.oblige('uniform', uniform, 'utils::uniform_divide')

    def at():
        r, _ = ck.run('utils::range_at', [agg('tuple', a, b), num('t')])
        ck.equal('range-at', r, add(a, mul(num('t'), sub(b, a))))
        r, _ = ck.run('utils::clamp_in_range', [num('t'), agg('tuple', a, b)])
        t = num('t')
        lo, hi = ite(real_lt(a, b), a, b), ite(real_lt(a, b), b, a)
        ck.equal('clamp', r, ite(real_lt(t, lo), lo, ite(real_lt(hi, t), hi, t)), over=lambda rng: {sym(x): rng.choice([0.0, 1.0, 2.0, rng.uniform(-1, 3)]) for x in 'abt'})
    ck.oblige('range', at, 'utils::range_at')

    def halves():
        C = sym('C')
        tol = num('tol', 'pos')

        def pd(x, y):
            t = mk('app', 'half', x, y)
            return base(t, mk('shape', num('s')))
        handed = []

        def hook(ip, args, st, dty):
            r = ip.deref(st, args[1])
            handed.append((ip.snap(st, args[0]), ip.deref(st, args[2])))
            return pd(r.args[1], r.args[2])
        T_.len_hooks.append(lambda t: add(const(2), atom(mk('app', 'more', *t.args[1:]))) if t.op == 'app' and t.args[0] == 'half' else None)
        facts_more = lambda x, y: facts.nonneg.add(mk('app', 'more', x, y))
        mid = div(add(a, b), const(2))
        facts_more(a, mid)
        facts_more(mid, b)
        r, s = ck.run('utils::parameter_division', [rv(C), agg('tuple', a, b), tol], hooks={'utils::parameter_division': hook})
        # the jitter: the only random number drawn
        p = add(const(Fraction(2, 5)), mul(const(Fraction(1, 5)), atom(mk('app', 'rand', ZERO))))
        P = lambda u: vcall(GP, 3, C, u)
        chord = vadd(P(a), vscale(p, vsub(P(b), P(a))))
        flat_ = real_lt(norm_(vsub(P(add(a, mul(p, sub(b, a)))), chord)), tol)
        l = pd(a, mid)
        n1 = sub(length(l), ONE)
        want = ite(flat_, cat(unit(a), unit(b)), cat(comp(n1, lambda i: get(l, i)), pd(mid, b)))
        def wavy(env, vals):
            # a curve that turns within any range
            o = env.obj('gp', vals)
            return ('agg', 'vec') + tuple(math.sin(40 * sum(float(x) for x in o.nums) + E_.h64(o.h, i) % 7) * 2 for i in range(3))
        ck.equal('halves', r, want, unfold={GP: wavy})
        for c, t in handed:
            ck.equal('halves/tolerance', t, tol)
            ck.equal('halves/curve', c, C)
    ck.oblige('halves', halves, 'utils::parameter_division')

    def points():
        C, tol = sym('C'), num('tol', 'pos')
        S = base(mk('sym', 'pd'), mk('shape', num('s')))
        got = []

        def hook(ip, args, st, dty):
            r = ip.deref(st, args[1])
            got.append((ip.snap(st, args[0]), r, ip.snap(st, args[2])))
            return S
        r, _ = ck.run(CS + '::get_points', [rv(agg(CS, C, agg('tuple', a, b), tol, n))], hooks={'utils::parameter_division': hook})
        ck.equal('segment-points', r, comp(length(S), lambda i: vcall(GP, 3, C, get(S, i))))
        for c, rr, t in got:
            ck.equal('segment-points/range', rr, agg('tuple', a, b))
            ck.equal('segment-points/tolerance', t, tol)
            ck.require('segment-points/curve', True if c is C else None, 'curve handed to the division')
    ck.oblige('segment-points', points, CS + '::get_points')


# ------------------------------------------------------------------ nearest points
def p_nearest(ck):
    q = v3('q')

    def near():
        at_least('P', 1)
        P = seq3('P')
        k = argmin_of(slen('P'), lambda i: norm2(vsub(get(P, i), q)))
        ov = lambda rng: {sym('P'): pts(rng, rng.randint(1, 5)), sym('q'): pt(rng)}
        r, _ = ck.run('utils::find_nearest_point', [rv(P), q])
        ck.equal('points', r, k, over=ov, strict_panic=True)
        L = seq_of('S', num('s'))
        r, _ = ck.run(PL + '::nearest_vertex', [rv(agg(PL, P, L, num('len'))), q])
        ck.equal('polyline', r, k, over=ov, strict_panic=True)
    ck.oblige('points', near, 'utils::find_nearest_point')

    def grid():
        n, m = num('n', 'u'), num('m', 'u')
        facts.lo[sym('n')] = facts.lo[sym('m')] = ONE
        fix_len('G', mul(n, m))
        G = seq3('G')
        r, _ = ck.run('utils::find_nearest_point_in_grid', [rv(agg('grid', G, n, m)), q])
        at = lambda i, j: norm2(vsub(get(G, add(mul(i, m), j)), q))
        col = lambda i: argmin_of(m, lambda j: at(i, j))
        row = argmin_of(n, lambda i: at(i, col(i)))

        def ov(rng):
            a, b = rng.randint(1, 4), rng.randint(1, 4)
            return {sym('n'): a, sym('m'): b, sym('G'): pts(rng, a * b), sym('q'): pt(rng)}
        ck.equal('grid', r, agg('tuple', row, col(row)), over=ov, strict_panic=True)
    ck.oblige('grid', grid, 'utils::find_nearest_point_in_grid')

    def minmax():
        S = seq_of('S', num('s'))
        at_least('S', 1)
        key = sym('key')
        r, _ = ck.run('utils::get_min_max_by_key', [rv(S), key])
        f = lambda i: atom(mk('app', 'call', key, get(S, i)))
        lo, hi = argmin_of(slen('S'), f), argmin_of(slen('S'), lambda i: neg(f(i)))

        def values(rng):
            # some of them close to one another
            xs = [rng.uniform(-5, 5) for _ in range(rng.randint(1, 5))]
            xs += [x + rng.choice([-1, 1]) * 10.0 ** -rng.randint(1, 6) for x in xs if rng.random() < 0.5]
            if rng.random() < 0.5:
                rng.shuffle(xs)
            return {sym('S'): xs}
        ck.equal('min-max', r, agg('tuple', f(lo), f(hi)), over=values, unfold={'call': lambda env, vs: vs[1]})
    ck.oblige('min-max', minmax, 'utils::get_min_max_by_key')

    def segment(d):
        def go():
            v = v3 if d == 3 else v2
            A, B, P = v('A'), v('B'), v('P')
            if d == 3:
                r, _ = ck.run('utils::distance_to_line_segment', [A, B, P])
            else:
                r, _ = ck.run('<glam::DVec2 as utils::point::Point>::distance_to_line_segment', [rv(P), A, B])
            ab = vsub(B, A)
            t = div(dot(vsub(P, A), ab), norm2(ab))
            t = ite(real_le(t, ZERO), ZERO, ite(real_le(ONE, t), ONE, t))
            ck.equal('segment-distance-%d' % d, r, norm_(vsub(P, vadd(A, vscale(t, ab)))),
                     over=lambda rng: {sym(x): ('agg', 'vec') + tuple(rng.choice([-1.0, 0.0, 1.0, 2.0, rng.uniform(-2, 2)]) for _ in range(d)) for x in 'ABP'})
        return go
    for d in (2, 3):
        ck.oblige('segment-distance-%d' % d, segment(d), 'distance_to_line_segment')


def pt(rng, d=3):
    return ('agg', 'vec') + tuple(float(rng.randint(-3, 3)) if rng.random() < 0.5 else rng.uniform(-3, 3) for _ in range(d))


def pts(rng, n, d=3):
    return [pt(rng, d) for _ in range(n)]


# ------------------------------------------------------------------ polylines
def p_polyline(ck):
    def poly():
        at_least('P', 2)
        P = seq3('P')
        n = sub(slen('P'), ONE)
        seg = lambda i: norm_(vsub(get(P, add(i, ONE)), get(P, i)))
        return P, n, seg, sum_(n, seg)

    def new():
        P, n, seg, L = poly()
        r, _ = ck.run(PL + '::new', [P])
        ck.equal('new', r, agg(PL, P, comp(n, seg), L), strict_panic=True)
        S = agg(PL, P, comp(n, seg), L)
        r, _ = ck.run(PL + '::start', [rv(S)])
        ck.equal('start', r, get(P, ZERO))
        r, _ = ck.run(PL + '::end', [rv(S)])
        ck.equal('end', r, get(P, n))
    ck.oblige('new', new, PL + '::new')

    def made(P):
        r, _ = ck.run(PL + '::new', [P])
        return r

    def over(rng):
        return {sym('P'): distinct(rng, rng.randint(2, 5)), sym('q'): pt(rng), sym('t'): rng.choice([-0.5, 0.0, 1.0, 1.5, rng.uniform(0, 1), rng.uniform(0, 1), rng.uniform(0, 1)])}

    def point():
        P, n, seg, L = poly()
        t = num('t')
        r, _ = ck.run(curve_fn(PL, 'get_point'), [rv(made(P)), t])
        pre = lambda k: sum_(k, seg)
        k = first(n, lambda i: real_le(mul(t, L), add(pre(i), seg(i))))
        f = div(sub(mul(t, L), pre(k)), seg(k))
        inner = vadd(get(P, k), vscale(f, vsub(get(P, add(k, ONE)), get(P, k))))
        want = ite(real_le(t, ZERO), get(P, ZERO), ite(real_le(ONE, t), get(P, n), ite(int_lt(k, n), inner, get(P, n))))
        ck.equal('point', r, want, over=over, strict_panic=True)
    ck.oblige('point', point, PL + '::get_point')

    def project():
        P, n, seg, L = poly()
        q = v3('q')
        r, _ = ck.run(curve_fn(PL, 'project'), [rv(made(P)), q])

        def along(i):
            ab = vsub(get(P, add(i, ONE)), get(P, i))
            t = div(dot(vsub(q, get(P, i)), ab), norm2(ab))
            return ite(real_le(t, ZERO), ZERO, ite(real_le(ONE, t), ONE, t))

        def dist(i):
            ab = vsub(get(P, add(i, ONE)), get(P, i))
            return norm2(vsub(q, vadd(get(P, i), vscale(along(i), ab))))
        k = argmin_of(n, dist)
        want = div(add(sum_(k, seg), mul(along(k), seg(k))), L)
        ck.equal('project', r, want, over=over, strict_panic=True)
    ck.oblige('project', project, PL + '::project')


def distinct(rng, n):
    out = []
    while len(out) < n:
        x = pt(rng)
        if not out or sum((a - b) ** 2 for a, b in zip(x[2:], out[-1][2:])) > 0.01:
            out.append(x)
    return out


# ------------------------------------------------------------------ swept surfaces and patches
def p_swept(ck):
    u, v = num('u'), num('v')

    def sweep():
        t = 'surface::sweep::SweepSurface<P, S>'
        P, S = sym('Pa'), sym('Se')
        r, _ = ck.run(surf_fn(t, 'get_point'), [rv(agg('surface::sweep::SweepSurface', P, S)), u, v])
        ck.equal('sweep', r, vadd(vcall(GP, 3, P, u), vcall(GP, 3, S, v)))
    ck.oblige('sweep', sweep, 'surface::sweep')

    def spin():
        t = 'surface::spin::SpinSurface<C>'
        X, Y, Z = unit_frame('f')
        O, S = v3('O'), sym('Se')
        r, _ = ck.run(surf_fn(t, 'get_point'), [rv(agg('surface::spin::SpinSurface', O, Z, S)), u, v])
        w = vsub(vcall(GP, 3, S, u), O)
        c, s = fn('cos', v), fn('sin', v)
        want = vadd(O, vadd(vscale(c, w), vadd(vscale(s, cross(Z, w)), vscale(mul(sub(ONE, c), dot(Z, w)), Z))))
        ck.equal('spin', r, want, over=lambda rng: frame_over(rng, 'f'))
    ck.oblige('spin', spin, 'surface::spin')

    def umbrella():
        t = 'surface::umbrella::Umbrella'
        R = num('R')
        r, _ = ck.run(surf_fn(t, 'get_point'), [rv(agg(t, R)), u, v])
        k = div(R, T_.PI)
        x = mul(k, sub(u, fn('sin', u)))
        ck.equal('umbrella', r, vec(mul(x, fn('cos', v)), mul(x, fn('sin', v)), mul(k, add(ONE, fn('cos', u)))))
    ck.oblige('umbrella', umbrella, 'surface::umbrella')
