"""Trimming surfaces by edge loops: how polygons are numbered, triangulated and lifted back."""
import models
from framework import *
from checks.geom import CY, PN, surf_fn, frame_over, field, pt, pts

LOOP = 'surface::EdgeLoop'
TM = 'mesh::TriangleMesh'
BS = 'surface::bspline::BSplineSurface'
KV = 'knot::KnotVector'
U = 'utils::polygon::'
GEN = 'utils::meshgen::generate_triangular_mesh'
P2 = lambda: shape(v2('s'))
NS = lambda: shape(num('s'))


def seqapp(sh, f, *args):
    return base(mk('app', f, *args), sh)


def convex_of(P):
    return seqapp(NS(), 'cornered', P), seqapp(NS(), 'concave', P)


def ears(P, V, C):
    return seqapp(NS(), 'ears', P, V, C)


def merged(P, offs):
    return seqapp(NS(), 'merged', P, offs)


def cleaned(P, V):
    return seqapp(NS(), 'cleaned', P, V), seqapp(NS(), 'concave2', P, V)


def ccw(P):
    return T_.b_atom('val', mk('app', 'ccw', P))


def front(P, offs):
    """generated points behind the given ones, and triangles"""
    return seqapp(P2(), 'extra', P, offs), seqapp(NS(), 'fill', P, offs)


# what the opaque steps mean, for the random interpretation (code that takes them inline is to agree)
def _ring(vals):
    return [tuple(p[2:]) for p in vals[0]]


def _ccw(env, vals):
    P = _ring(vals)
    s = sum((b[0] - a[0]) * (a[1] + b[1]) for a, b in zip(P, P[1:] + P[:1]))
    if abs(s) < 1e-9:
        raise E_.Undef('area too small to tell the sense')
    return s < 0


def _corners(env, vals):
    P = _ring(vals)
    n = len(P)
    kept, conc = [], []
    for i in range(n):
        a, b, c = P[i - 1], P[i], P[(i + 1) % n]
        d = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])
        if abs(d) > 1e-7:
            kept.append(i)
            if d < 0:
                conc.append(i)
    return kept, conc


def _fill(env, vals):
    # uninterpreted corners, three for each of some triangles
    o = env.obj('app:fill', vals)
    return [o.sub('idx', i) for i in range(3 * (E_.h64(o.h, 'triangles') % 3))]


MEANING = {'fill': _fill, 'ccw': _ccw, 'cornered': lambda env, vals: _corners(env, vals)[0], 'concave': lambda env, vals: _corners(env, vals)[1]}


def hooks_of():
    def polygon(ip, args, st, dty):
        s = ip.snap(st, args[0])
        V = base(mk('app', 'polygon', s), shape(v3('s')))
        return NIL if length(V) is ZERO else V

    def convexity(ip, args, st, dty):
        return agg('tuple', *convex_of(ip.snap(st, args[0])))

    def triangulate(ip, args, st, dty):
        return ears(*[ip.snap(st, a) for a in args])

    def merge(ip, args, st, dty):
        return merged(*[ip.snap(st, a) for a in args])

    def find(ip, args, st, dty):
        V, C = cleaned(ip.snap(st, args[0]), ip.deref(st, args[1]))
        ip.write(st, args[1], V)
        return C

    def is_ccw(ip, args, st, dty):
        return ccw(ip.snap(st, args[0]))

    def generate(ip, args, st, dty):
        P = ip.snap(st, args[0])
        E, T = front(P, ip.snap(st, args[1]))
        return agg('tuple', cat(P, E), T)
    return {LOOP + '::to_polygon': polygon, U + 'compute_vertex_convexity': convexity, U + 'trianglate_polygon': triangulate,
            U + 'merge_polygons': merge, U + 'find_concave_vertices': find, U + 'is_polygon_counter_clockwise': is_ccw, GEN: generate}


def classes(tier):
    out = ['', '0', '1', '01', '10', '11', '101', '111', '011']
    if tier == 'thorough':
        out += ['00', '001', '010', '100', '110', '0101', '1111', '1011']
    return out


def loops_of(cls):
    """the bounds, their polygons and the offsets of the non-empty ones"""
    els, Vs, offs = [], [], [ZERO]
    for i, c in enumerate(cls):
        e = agg(LOOP, base(sym('E%d' % i), shape(sym('s'))))
        t = mk('app', 'polygon', e)
        V = base(t, shape(v3('s')))
        if c == '0':
            T_.len_hooks.append((lambda t: lambda x: ZERO if x is t else None)(t))
        else:
            facts.lo[mk('len', t)] = ONE
            Vs.append(V)
            offs.append(add(offs[-1], atom(mk('len', t))))
        els.append(unit(e))
    return cat(*els) if els else NIL, cat(*Vs) if Vs else NIL, offs


def seqn(*xs):
    return cat(*[unit(x) for x in xs])


def mapped(S, f):
    return cat(*[comp(length(p), lambda i: f(get(p, i))) for p in parts(S)]) if S is not NIL else NIL


def rev(S):
    n = length(S)
    return comp(n, lambda i: get(S, sub(sub(n, ONE), i)))


def mesh(V, T):
    return agg(TM, V, NIL, T)


EMPTY = mesh(NIL, NIL)


def reversed_winding(T):
    n = T_.divmod_t(length(T), const(3))[0]
    at = lambda j, k: get(T, add(mul(const(3), j), const(k)))
    return flat(n, lambda j: cat(unit(at(j, 2)), unit(at(j, 1)), unit(at(j, 0))))


def p_trim(ck):
    tier = ck.tier

    def plane(cls):
        def go():
            B, V, offs = loops_of(cls)
            X, Y, Z = unit_frame('f')
            O = v3('O')
            S = agg(PN, O, Z, X, Y)
            r, _ = ck.run(surf_fn(PN, 'trim'), [rv(S), rv(B)], hooks=hooks_of())
            n = length(V)
            P = mapped(V, lambda v: vec(dot(vsub(v, O), X), dot(vsub(v, O), Y)))
            if len(offs) == 1:
                want = EMPTY
            elif len(offs) == 2:
                K, C = convex_of(P)
                mean = vec(*[div(sum_(n, lambda i: get(V, i).args[k]), n) for k in (1, 2, 3)])
                fan = cat(flat(sub(n, ONE), lambda i: seqn(n, i, add(i, ONE))), seqn(n, sub(n, ONE), ZERO))
                want = ite(int_eq(length(K), length(C)), EMPTY, ite(int_eq(length(C), ZERO), mesh(cat(V, unit(mean)), fan), mesh(V, ears(P, K, C))))
            else:
                M = merged(P, seqn(*offs))
                K, C = cleaned(P, M)
                want = mesh(V, ears(P, K, C))
            same_mesh(ck, 'plane', r, want, over=lambda rng: frame_over(rng, 'f'))
        return go
    for c in classes(tier):
        ck.oblige('plane/%s' % c, plane(c), PN + '::trim')

    def tube(name, fn, S, ring, lift, hooks, over):
        """cylinders and B-spline surfaces: one loop is brought to counter-clockwise order of the chart"""
        def case(cls):
            def go():
                B, V, offs = loops_of(cls)
                r, _ = ck.run(fn, [rv(S()), rv(B)], hooks=dict(hooks_of(), **hooks()))
                P = ring(V)
                if len(offs) == 1:
                    want = EMPTY
                elif len(offs) == 2:
                    E, T = front(P, seqn(*offs))
                    Q, W = rev(P), rev(V)
                    F, R = front(Q, seqn(*offs))
                    up = lambda X: comp(length(X), lambda i: lift(V, get(X, i)))
                    want = ite(ccw(P), mesh(cat(V, up(E)), reversed_winding(T)), mesh(cat(W, up(F)), R))
                else:
                    E, T = front(P, seqn(*offs))
                    want = mesh(cat(V, comp(length(E), lambda i: lift(V, get(E, i)))), T)
                same_mesh(ck, name, r, want, over=over)
            return go
        for c in classes(tier):
            ck.oblige('%s/%s' % (name, c), case(c), fn)

    X, Y, Z = unit_frame('f')
    O, rad = v3('O'), num('r', 'pos')

    def distance(V):
        lo, hi = models.FMAX, neg(models.FMAX)
        n = length(V)
        h = lambda i: dot(vsub(get(V, i), O), Z)
        lo = fold_num(n, lo, lambda i, x: ite(real_lt(h(i), x), h(i), x))
        hi = fold_num(n, hi, lambda i, x: ite(real_lt(x, h(i)), h(i), x))
        return mul(const(2), sub(hi, lo))

    def ring(V):
        if V is NIL:
            return NIL
        d = distance(V)

        def one(v):
            w = vsub(v, O)
            q = div(d, sub(d, dot(w, Z)))
            return vec(mul(dot(w, X), q), mul(dot(w, Y), q))
        return mapped(V, one)

    def unring(V, p):
        d = distance(V)
        q = mul(rad, T_.inv(norm_(p)))
        x, y = p.args[1:]
        return vadd(vadd(O, vscale(mul(x, q), X)), vadd(vscale(mul(y, q), Y), vscale(mul(d, sub(ONE, q)), Z)))
    tube('cylinder', surf_fn(CY, 'trim'), lambda: agg(CY, O, Z, X, rad), ring, unring, lambda: {}, lambda rng: {**frame_over(rng, 'f'), sym('r'): rng.uniform(1, 5)})

    SP = 'surface::Surface::get_point'
    SU = agg(BS, agg('grid', seq3('G'), num('n', 'u'), num('m', 'u')), agg('tuple', agg(KV, seq_of('U', num('s'))), agg(KV, seq_of('V', num('s')))), agg('tuple', num('p', 'u'), num('q', 'u')))

    def bhooks():
        out = {}
        for x in ck.prog.norm:
            if x.startswith('<surface::bspline::BSplineSurface<glam::DVec3> as surface::Surface>::get_point'):
                out[x] = lambda ip, args, st, dty: vcall(SP, 3, ip.snap(st, args[0]), ip.snap(st, args[1]), ip.snap(st, args[2]))
            if x.startswith(BS) and x.endswith('::project_points'):
                out[x] = lambda ip, args, st, dty: projected(ip.snap(st, args[0]), ip.snap(st, args[1]))
        return out

    def projected(S, V):
        return mapped(V, lambda v: vcall('chart', 2, S, v))
    tube('bspline', surf_fn(BS + '<glam::DVec3>', 'trim'), lambda: SU, lambda V: projected(SU, V), lambda V, p: vcall(SP, 3, SU, *p.args[1:]), bhooks, None)


def same_mesh(ck, name, r, want, **kw):
    for k, w in enumerate(('vertices', 'normals', 'triangles')):
        ck.equal('%s/%s' % (name, w), field(r, k), field(want, k), unfold=MEANING, maxlen=6, **kw)
