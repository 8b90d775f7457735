"""Meshes, files, edge loops and normals."""
import random
import models
from fractions import Fraction

from framework import *
from checks.eval_ import rand_sorted
from checks.geom import curve_fn, surf_fn, field, pt, pts, distinct, CS, GP, SP

TM = 'mesh::TriangleMesh'
MODEL = 'model::Model'
MESH = 'face::Face::get_triangle_mesh'
PATCH = 'surface::SurfacePatch'
LOOP = 'surface::EdgeLoop'
BOXC = "<std::boxed::Box<(dyn curve::Curve + 'static)> as curve::Curve>"
BOXS = "<std::boxed::Box<(dyn surface::Surface + 'static)> as surface::Surface>"


def has_file(st):
    fs = [k for k in st if k.startswith('FILE')]
    if len(fs) != 1:
        raise Skip('one file written')
    return st[fs[0]]


def created(ck, name, st, path):
    """the only outside effect is the creation of the named file"""
    fx = st['FX']
    ok_ = fx is unit(agg('create', path)) or (is_seq(fx) and [str(p) for p in parts(fx)] == [str(unit(agg('create', path)))])
    ck.require(name + '/effects', True if ok_ else None, 'effects: %s' % T_.show(fx)[:200])


def lit(s):
    return unit(mk('lit', s))


def num_text(x):
    import models
    return models.fmt_token('display', (), x)


def line(*items):
    """a text line of numbers separated by literals"""
    return cat(*[lit(x) if isinstance(x, str) else num_text(x) for x in items])


def mesh_of(name):
    t = sym(name) if isinstance(name, str) else name
    return agg(TM, base(proj_(t, (0,)), shape(v3('s'))), base(proj_(t, (1,)), shape(v3('s'))), base(proj_(t, (2,)), shape(num('s'))))


def rand_mesh(rng):
    n = rng.randint(1, 4)
    m = n if rng.random() < 0.4 else 0 if rng.random() < 0.6 else rng.randint(1, 6)
    return ('agg', TM, pts(rng, n), pts(rng, m),
            [rng.randrange(n) for _ in range(3 * rng.randint(0, 3))])


def mesh_env(rng):
    def f(env, vals):
        tags, nums = [], []
        for v in vals:
            E_.flatten(v, tags, nums)
        rng = random.Random(E_.h64(*tags, *[int(x * 4096) for x in nums]))
        if env.near:
            rng = Around(rng.random())
            rng.near = env.near
        return rand_mesh(rng)
    return f


# ------------------------------------------------------------------ forwarding
def p_forward(ck):
    q, u, v = v3('q'), num('u'), num('v')
    C = sym('C')

    def fwd(box, tr, m, args, want, where):
        def go():
            f = '%s::%s' % (box, m)
            if not ck.has(f):
                # not overridden: the trait's default body answers for the boxed value
                f = '%s::%s' % (tr, m)
            r, _ = ck.run(f, [rv(C)] + args)
            ck.equal(where, r, want)
        ck.oblige(where, go, where)
    fwd(BOXC, 'curve::Curve', 'get_point', [u], vcall(GP, 3, C, u), 'curve/get_point')
    fwd(BOXC, 'curve::Curve', 'project', [q], vcall('curve::Curve::project', 1, C, q), 'curve/project')
    rng_ = agg('tuple', num('a'), num('b'))
    for s in (TRUE, FALSE):
        t = mk('app', 'curve::Curve::refine_parameter_range', C, rng_, s)
        fwd(BOXC, 'curve::Curve', 'refine_parameter_range', [rng_, s], agg('tuple', atom(proj_(t, (0,))), atom(proj_(t, (1,)))), 'curve/refine_parameter_range/%s' % s.op)
    fwd(BOXS, 'surface::Surface', 'get_point', [u, v], vcall(SP, 3, C, u, v), 'surface/get_point')
    P = base(sym('P'), shape(v2('s')))
    fwd(BOXS, 'surface::Surface', 'get_normals', [rv(P)], base(mk('app', 'surface::Surface::get_normals', C, P), shape(v3('s'))), 'surface/get_normals')
    B = base(sym('B'), mk('shape', 'x'))
    t = mk('app', 'surface::Surface::trim', C, B)
    fwd(BOXS, 'surface::Surface', 'trim', [rv(B)], mesh_of(t), 'surface/trim')

    def face():
        M = mesh_of('M')
        r, _ = ck.run('<mesh::TriangleMesh as face::Face>::get_triangle_mesh', [rv(M)])
        ck.equal('face/mesh', r, M)
    ck.oblige('face/mesh', face, 'face')

    def trimmed():
        S = sym('S')
        r, _ = ck.run('<surface::TrimmedSurface<S> as face::Face>::get_triangle_mesh', [rv(agg('surface::TrimmedSurface', S, B))])
        ck.equal('face/trimmed', r, mesh_of(mk('app', 'surface::Surface::trim', S, B)))
    ck.oblige('face/trimmed', trimmed, 'face')


# ------------------------------------------------------------------ grid meshes
def p_grid(ck):
    n, m = num('n', 'u'), num('m', 'u')

    def dims():
        facts.lo[sym('n')] = facts.lo[sym('m')] = ONE

    def quads(rows, cols):
        def cell(i, j):
            a = add(mul(i, cols), j)
            b = add(a, cols)
            return cat(*[unit(x) for x in (a, b, add(a, ONE), add(a, ONE), b, add(b, ONE))])
        return flat(sub(rows, ONE), lambda i: flat(sub(cols, ONE), lambda j: cell(i, j)))

    def triangles():
        dims()
        fix_len('G', mul(n, m))
        r, _ = ck.run('mesh::create_triangles', [rv(agg('grid', seq3('G'), n, m))])
        ck.equal('triangles', r, quads(n, m), strict_panic=True, over=lambda rng: {sym('n'): rng.randint(1, 4), sym('m'): rng.randint(1, 4)})
    ck.oblige('triangles', triangles, 'mesh::create_triangles')

    a, b, c, d = num('a'), num('b'), num('c'), num('d')
    S = sym('S')

    def setup():
        dims()
        self_ = agg(PATCH, S, agg('tuple', agg('tuple', a, b), agg('tuple', c, d)), agg('tuple', n, m))
        U = base(mk('app', 'div', a, b, n), shape(num('s')))
        V = base(mk('app', 'div', c, d, m), shape(num('s')))
        T_.len_hooks.append(lambda t: add(t.args[3], ONE) if t.op == 'app' and t.args[0] == 'div' else None)

        def hook(ip, args, st, dty):
            r = ip.deref(st, args[0])
            return base(mk('app', 'div', r.args[1], r.args[2], ip.deref(st, args[1])), shape(num('s')))
        return self_, U, V, {'utils::uniform_divide': hook}

    def over(rng):
        p, q = rng.randint(1, 3), rng.randint(1, 3)
        return {sym('n'): p, sym('m'): q}

    def unf():
        return {'div': lambda env, vs: [vs[0] + (vs[1] - vs[0]) * i / vs[2] for i in range(int(vs[2]) + 1)]}

    def points():
        self_, U, V, hooks = setup()
        r, _ = ck.run(PATCH + '::get_point_grid', [rv(self_)], hooks=hooks)
        P = flat(add(n, ONE), lambda i: comp(add(m, ONE), lambda j: vcall(SP, 3, S, get(U, i), get(V, j))))
        ck.equal('point-grid', r, agg('grid', P, add(n, ONE), add(m, ONE)), over=over)
        Q = base(sym('Q'), shape(v2('s')))
        r, _ = ck.run(PATCH + '::get_points', [rv(self_), rv(Q)], hooks=hooks)
        ck.equal('points', r, comp(slen('Q'), lambda i: vcall(SP, 3, S, get(Q, i).args[1], get(Q, i).args[2])))
    ck.oblige('points', points, PATCH)

    def patch():
        self_, U, V, hooks = setup()
        r, _ = ck.run('<surface::SurfacePatch<S> as face::Face>::get_triangle_mesh', [rv(self_)], hooks=hooks)
        P = flat(add(n, ONE), lambda i: comp(add(m, ONE), lambda j: vcall(SP, 3, S, get(U, i), get(V, j))))
        ck.equal('patch/vertices', field(r, 0), P, over=over)
        ck.equal('patch/triangles', field(r, 2), quads(add(n, ONE), add(m, ONE)), over=over)

        # normals: undefined ones taken over from the first defined neighbour
        N = base(mk('app', 'surface::Surface::get_normals', S, flat(add(n, ONE), lambda i: comp(add(m, ONE), lambda j: vec(get(U, i), get(V, j))))), shape(v3('s')))
        rows, cols = add(n, ONE), add(m, ONE)

        def step(k, N):
            import models
            undef = lambda w: models.nanv(*w.args[1:])
            row, col = T_.divmod_t(k, cols)
            r = N
            nb = [(int_lt(ZERO, row), sub(k, cols)), (int_lt(row, n), add(k, cols)), (int_lt(ZERO, col), sub(k, ONE)), (int_lt(col, m), add(k, ONE))]
            for g, j in reversed(nb):
                r = ite(g, ite(undef(get(N, j)), r, T_.setseq(N, k, get(N, j))), r)
            return ite(undef(get(N, k)), r, N)
        want = fold_seq(length(N), N, step)
        nan = float('nan')

        def normals(env, vals):
            k = len(vals[1])
            rng = random.Random(k + int(1e6 * sum(abs(x) for p in vals[1] for x in p[2:])))
            return [('agg', 'vec', nan, nan, nan) if rng.random() < 0.5 else pt(rng) for _ in range(k if rng.random() < 0.9 else 0)]
        ck.equal('patch/normals', field(r, 1), want, over=over, unfold={**unf(), 'surface::Surface::get_normals': normals})
    ck.oblige('patch', patch, PATCH + '::get_triangle_mesh')


# ------------------------------------------------------------------ files
def byte_len(p):
    """(least, most) number of bytes a written part takes; None: unknown"""
    if p.op == 'unit':
        x = p.args[0]
        if x.op == 'lit':
            n = len(x.args[0].encode())
            return n, n
        if x.op == 'le':
            n = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'f64': 8}[x.args[0]]
            return n, n
        if x.op == 'fmt':
            sp = dict(x.args[1])
            return max(1 if x.args[0] == 'display' and not is_seq(x.args[2]) else 0, sp.get('w', 0)), None
        if x.op == 'bytes':
            n = cval(x.args[2])
            lo, hi = seq_len(x.args[1])
            if x.args[0] == 'truncate':
                return min(lo, n), n if hi is None else min(hi, n)
            if x.args[0] == 'resize':
                return n, n
        if x.op in ('rat', 'atom') or x.op == 'sym':
            return 1, 1
    if p.op in ('comp', 'base'):
        n = cval(length(p))
        if n is not None:
            return n, n
    return 0, None


def seq_len(s):
    lo, hi = 0, 0
    for p in parts(s):
        a, b = byte_len(p)
        lo += a
        hi = None if hi is None or b is None else hi + b
    return lo, hi


def file_content(s):
    """the bytes of the file once every seek has been played"""
    out = []
    at = None
    new, size = [], 0
    for p in parts(s):
        if p.op == 'unit' and p.args[0].op == 'seek':
            if size:
                return None, 'overwritten parts differ in length'
            k = cval(p.args[0].args[0])
            if k is None:
                raise Skip('seek position')
            pos, at = 0, None
            for i, q in enumerate(out):
                if pos == k:
                    at = i
                    break
                lo, hi = byte_len(q)
                if lo != hi:
                    return None, 'offset %s lies behind a part of varying length' % k
                pos += lo
            if at is None:
                return None, 'offset %s is no part boundary' % k
            continue
        if at is None:
            out.append(p)
            continue
        n, hi = byte_len(p)
        if n != hi:
            return None, 'what is written over has a varying length'
        new.append(p)
        size += n
        # written over so far: the parts from `at` on that take no more than what is written
        taken, k = 0, at
        while k < len(out) and taken < size:
            lo, hi = byte_len(out[k])
            if lo != hi:
                return None, 'a part of varying length is written over'
            taken += lo
            k += 1
        if taken == size:
            out[at:k] = new
            at += len(new)
            new, size = [], 0
    if size:
        return None, 'overwritten parts differ in length'
    return out, None


def p_stl(ck):
    path = sym('path')

    def stl():
        F = base(sym('F'), shape(sym('s')))
        self_ = agg(MODEL, F, base(sym('C'), mk('shape', 'x')))
        r, st = ck.run(MODEL + '::save_as_stl', [rv(self_), path])
        ck.equal('result', r, ok(UNIT))
        created(ck, 'stl', st, path)
        out, why = file_content(has_file(st))
        if out is None:
            ck.violate('layout', why)
            return
        # header
        pos, i = 0, 0
        exact = True
        while i < len(out) and pos < 80:
            lo, hi = byte_len(out[i])
            exact = exact and lo == hi
            pos += lo
            i += 1
        ck.require('header/size', exact and pos == 80, 'the header takes %s%d bytes instead of 80' % ('' if exact else 'at least ', pos))
        first = out[0]
        while first.op == 'unit' and first.args[0].op == 'bytes':
            first = parts(first.args[0].args[1])[0]
        txt = first.args[0].args[0] if first.op == 'unit' and first.args[0].op == 'lit' else None
        ck.require('header/not-ascii', True if txt is None else not txt.lower().startswith('solid'), 'a binary header must not start with solid')
        mesh = lambda i: mesh_of(mk('app', MESH, get(F, i)))
        tri = lambda i: T_.divmod_t(length(mesh(i).args[3]), const(3))[0]
        le = models.le_token

        def triangle(i, j):
            M = mesh(i)
            out = [le('f32', ZERO)] * 3
            for k in range(3):
                v = get(M.args[1], get(M.args[3], add(mul(const(3), j), const(k))))
                out += [le('f32', fn('f32', x)) for x in v.args[1:]]
            return cat(*out, unit(ZERO), unit(ZERO))
        want = cat(le('u32', sum_(slen('F'), tri)), flat(slen('F'), lambda i: flat(tri(i), lambda j: triangle(i, j))))
        ck.equal('body', cat(*out[i:]), want, unfold={MESH: mesh_env(None)})
    ck.oblige('stl', stl, MODEL + '::save_as_stl')


def mesh_lines(M, vs, ns):
    T = T_.divmod_t(length(M.args[3]), const(3))[0]
    v = flat(length(M.args[1]), lambda i: line('v ', get(M.args[1], i).args[1], ' ', get(M.args[1], i).args[2], ' ', get(M.args[1], i).args[3], '\n'))
    n = flat(length(M.args[2]), lambda i: line('vn ', get(M.args[2], i).args[1], ' ', get(M.args[2], i).args[2], ' ', get(M.args[2], i).args[3], '\n'))
    at = lambda j, k: get(M.args[3], add(mul(const(3), j), const(k)))
    f0 = flat(T, lambda j: line('f ', add(vs, at(j, 0)), ' ', add(vs, at(j, 1)), ' ', add(vs, at(j, 2)), '\n'))
    f1 = flat(T, lambda j: line('f ', add(vs, at(j, 0)), '//', add(ns, at(j, 0)), ' ', add(vs, at(j, 1)), '//', add(ns, at(j, 1)), ' ', add(vs, at(j, 2)), '//', add(ns, at(j, 2)), '\n'))
    return cat(v, n, ite(int_eq(length(M.args[2]), ZERO), f0, f1))


def p_obj(ck):
    path = sym('path')

    def over(rng):
        m = rand_mesh(rng)
        return {sym('V'): m[2], sym('N'): m[3], sym('T'): m[4], sym('vs'): rng.randint(1, 9), sym('ns'): rng.randint(1, 9)}

    def mesh():
        M = agg(TM, seq3('V'), seq3('N'), seq_of('T', num('s')))
        vs, ns = num('vs', 'u'), num('ns', 'u')
        r, st = ck.run(TM + '::write_obj', [rv(M), mk('ref', 'W', ()), vs, ns], st={'W': NIL})
        ck.equal('write/result', r, ok(UNIT))
        ck.equal('write/text', st['W'], mesh_lines(M, vs, ns), over=over, strict_panic=True)
        r, st = ck.run(TM + '::save_as_obj', [rv(M), path])
        ck.equal('mesh/result', r, ok(UNIT))
        created(ck, 'mesh', st, path)
        ck.equal('mesh/text', has_file(st), mesh_lines(M, ONE, ONE), over=over, strict_panic=True)
    ck.oblige('mesh', mesh, TM)

    def model():
        F = base(sym('F'), shape(sym('s')))
        self_ = agg(MODEL, F, base(sym('C'), mk('shape', 'x')))
        r, st = ck.run(MODEL + '::save_as_obj', [rv(self_), path])
        ck.equal('model/result', r, ok(UNIT))
        created(ck, 'model', st, path)
        mesh = lambda i: mesh_of(mk('app', MESH, get(F, i)))
        off = lambda k: (lambda i: add(ONE, sum_(i, lambda j: length(mesh(j).args[k]))))
        want = flat(slen('F'), lambda i: mesh_lines(mesh(i), off(1)(i), off(2)(i)))
        ck.equal('model/text', has_file(st), want, unfold={MESH: mesh_env(None)})
    ck.oblige('model', model, MODEL + '::save_as_obj')

    def bound():
        at_least('V', 2)
        V = seq3('V')
        r, st = ck.run('surface::bspline::save_bound_as_obj', [rv(V), path])
        ck.equal('bound/result', r, ok(UNIT))
        created(ck, 'bound', st, path)
        n = slen('V')
        want = cat(flat(n, lambda i: line('v ', get(V, i).args[1], ' ', get(V, i).args[2], ' ', get(V, i).args[3], '\n')),
                   flat(sub(n, ONE), lambda i: line('l ', add(i, ONE), ' ', add(i, const(2)), '\n')), line('l ', n, ' 1\n'))
        ck.equal('bound/text', has_file(st), want, strict_panic=True, over=lambda rng: {sym('V'): pts(rng, rng.randint(2, 5))})
    ck.oblige('bound', bound, 'surface::bspline::save_bound_as_obj')


# ------------------------------------------------------------------ edge loops
def p_loop(ck):
    def edges():
        E = base(sym('E'), shape(agg(CS, sym('c'), agg('tuple', num('a'), num('b')), num('t'), num('n'))))
        S = lambda c, a, b, t: base(mk('app', 'pd', c, a, b, t), shape(num('s')))

        def hook(ip, args, st, dty):
            r = ip.deref(st, args[1])
            return S(ip.snap(st, args[0]), r.args[1], r.args[2], ip.snap(st, args[2]))
        return E, S, {'utils::parameter_division': hook}

    def polygon():
        import models
        E, S, hooks = edges()
        r, _ = ck.run(LOOP + '::to_polygon', [rv(agg(LOOP, E))], hooks=hooks)

        def edge(i):
            e = get(E, i)
            c = e.args[1]
            a, b = e.args[2].args[1:]
            s = S(c, a, b, e.args[3])
            return comp(length(s), lambda j: vcall(GP, 3, c, get(s, j)))
        V = flat(slen('E'), edge)
        tol = const(Fraction(1, 10 ** 7))
        near = lambda p, q: T_.near(norm2(vsub(p, q)), tol)
        sm = v3('s')
        vs = [fresh('x'), fresh('x')]
        els = [T_.elem_like(shape(sm), v) for v in vs]
        D = base(mk('app', 'dedup', V, T_.lam(vs, near(*els))), shape(sm))
        n = length(D)
        want = ite(int_eq(n, ZERO), D, ite(near(get(D, ZERO), get(D, sub(n, ONE))), T_.sub_(D, ZERO, sub(n, ONE)), D))

        grid = lambda x: float(round(2 * x) % 3)

        def point(env, vals):
            # points of a coarse lattice: coincidences happen
            o = env.obj('pt', vals)
            hs = [E_.h64(o.h, i, *[int(x * 64) for x in o.nums]) for i in range(3)]
            # or close to one another, on either side of what counts as near
            return ('agg', 'vec') + tuple(float(h % 2) + (0.0, 0.0, 1e-5, 1e-4, 2e-4, 3.2e-4, 1e-3, 0.0)[h // 2 % 8] for h in hs)
        ck.equal('polygon', r, want, unfold={GP: point}, maxlen=4)
    ck.oblige('polygon', polygon, LOOP + '::to_polygon')

    def winding():
        M = agg(TM, seq3('V'), seq3('N'), seq_of('T', num('s')))
        r, _ = ck.run(TM + '::reverse_winding_direction', [M])
        n = T_.divmod_t(slen('T'), const(3))[0]
        at = lambda j, k: get(M.args[3], add(mul(const(3), j), const(k)))
        # any rotation of (c, b, a) turns the triangle over; the vertices and normals stay
        want = flat(n, lambda j: cat(unit(at(j, 2)), unit(at(j, 1)), unit(at(j, 0))))
        ov = lambda rng: {sym('T'): [rng.randrange(9) for _ in range(3 * rng.randint(0, 3))]}
        ck.equal('winding/triangles', field(r, 2), want, over=ov, strict_panic=True)
        ck.equal('winding/vertices', field(r, 0), M.args[1])
        ck.equal('winding/normals', field(r, 1), M.args[2])
        r, _ = ck.run(TM + '::triangle_count', [rv(M)])
        ck.equal('triangle-count', r, n)
    ck.oblige('winding', winding, TM + '::reverse_winding_direction')


# ------------------------------------------------------------------ normals
def p_normals(ck):
    BS = 'surface::bspline::BSplineSurface'

    def normals():
        S = agg(BS, agg('grid', seq3('G'), num('n', 'u'), num('m', 'u')), agg('tuple', agg('knot::KnotVector', seq_of('U', num('s'))), agg('knot::KnotVector', seq_of('V', num('s')))), agg('tuple', num('p', 'u'), num('q', 'u')))
        Q = base(sym('Q'), shape(v2('s')))
        gp = [x for x in ck.prog.norm if x.startswith('<surface::bspline::BSplineSurface<glam::DVec3> as surface::Surface>::get_point')]
        nm = [x for x in ck.prog.norm if x.startswith('<surface::bspline::BSplineSurface<glam::DVec3> as surface::Surface>::get_normals')]
        if not nm:
            ck.violate('normals', 'a B-spline surface no longer gives normals of its own')
            return
        ds = [BS + '<P>::derivative_u', BS + '<P>::derivative_v']
        ds = [x for x in ck.prog.norm if x.endswith('derivative_u') or x.endswith('derivative_v')]
        got = {}

        def dhook(which):
            def h(ip, args, st, dty):
                return mk('app', which, ip.snap(st, args[0]))
            return h

        def phook(ip, args, st, dty):
            s = ip.snap(st, args[0])
            return vcall(SP, 3, s, ip.snap(st, args[1]), ip.snap(st, args[2]))
        hooks = {x: dhook(x.split('_')[-1]) for x in ds}
        hooks.update({x: phook for x in gp})
        r, _ = ck.run(nm[0], [rv(S), rv(Q)], hooks=hooks)
        at = lambda w, i: vcall(SP, 3, mk('app', w, S), get(Q, i).args[1], get(Q, i).args[2])

        def normal(i):
            c = cross(at('u', i), at('v', i))
            return vscale(T_.inv(norm_(c)), c)

        def point(env, vals):
            # derivatives, now and then none at all
            o = env.obj('sp', vals)
            h = o.h
            return ('agg', 'vec') + tuple(((E_.h64(h, i) % 4001 - 2000) / 500 + sum((E_.h64(h, i, j) % 41 - 20) / 10 * float(x) for j, x in enumerate(o.nums))) * (h % 5 > 0) for i in range(3))
        want = comp(slen('Q'), normal)
        ck.equal('normals', r, want, unfold={SP: point})
        if ck.obl[-1][1] == 'consistent':
            # no value where the cross product vanishes
            def there(i):
                c = cross(at('u', i), at('v', i))
                return ite(T_.real_lt(ZERO, dot(c, c)), normal(i), agg('undefined'))
            sep = ck.separate(r, comp(slen('Q'), there), None, {SP: point}, False, None, 5)
            if sep[0]:
                ck.violate('normals/parallel', 'a normal is given where the derivatives are parallel: %s' % sep[1])
    ck.oblige('normals', normals, BS + '::get_normals')


# ------------------------------------------------------------------ point files
def p_points(ck):
    path = sym('path')

    def scale():
        P, k = seq3('P'), num('k')
        r, _ = ck.run('points::scale_points', [rv(P), k])
        ck.equal('scale', r, comp(slen('P'), lambda i: vscale(k, get(P, i))))
    ck.oblige('scale', scale, 'points::scale_points')

    def save(f, S, cols, sep, over):
        def go():
            nm = f.split('::')[-1]
            r, st = ck.run(f, [rv(S), path])
            ck.equal(nm + '/result', r, ok(UNIT))
            created(ck, nm, st, path)

            def row(i):
                xs = cols(get(S, i))
                out = []
                for k, x in enumerate(xs):
                    out += [x, sep if k + 1 < len(xs) else '\n']
                return line(*out)
            ck.equal(nm + '/text', has_file(st), flat(slen('P'), row), over=over, strict_panic=True)
        ck.oblige(f, go, f)
    save('points::save_point_cloud', seq3('P'), lambda p: p.args[1:], ' ', lambda rng: {sym('P'): pts(rng, rng.randint(0, 4))})
    save('points::save_points', base(sym('P'), shape(v2('s'))), lambda p: p.args[1:], ',', lambda rng: {sym('P'): pts(rng, rng.randint(0, 4), 2)})
    save('points::save_point_cloud_with_normal', base(sym('P'), shape(agg('tuple', v3('s'), v3('t')))), lambda t: t.args[1].args[1:] + t.args[2].args[1:], ' ',
         lambda rng: {sym('P'): [('agg', 'tuple', pt(rng), pt(rng)) for _ in range(rng.randint(0, 4))]})

    def load():
        import models
        text = mk('app', 'fsread', path)
        L = mk('app', 'lines', text)
        n = atom(mk('len', L))
        row = lambda i: base(mk('idx', L, i), mk('shape', 'x'))
        sep = agg('chars', *[lit(x) for x in sorted(' ,\t')])

        def items(i):
            t = mk('app', 'split', row(i), sep)
            m = atom(mk('len', t))
            el = lambda j: base(mk('idx', t, j), mk('shape', 'x'))
            return flat(m, lambda j: ite(int_eq(length(el(j)), ZERO), NIL, unit(el(j))))
        note = lambda i: models.b_atom('starts_with', row(i), lit('#'))
        val = lambda s: mk('app', 'parse:f64', s)
        bad = lambda s: T_.variant_cond(val(s), 1)
        get_ = lambda s: atom(proj_(mk('dc', val(s), 0), (0,)))

        def col(i, k):
            """index of coordinate k of a data line of 3 or 4 items"""
            return get(items(i), add(sub(length(items(i)), const(3)), const(k)))
        data = lambda i: b_and(T_.b_not(note(i)), T_.b_or(int_eq(length(items(i)), const(3)), int_eq(length(items(i)), const(4))))
        anybad = lambda i: T_.b_or(bad(col(i, 0)), T_.b_or(bad(col(i, 1)), bad(col(i, 2))))
        k = first(n, lambda i: T_.b_or(models.unreadable(L, i), ite(data(i), anybad(i), FALSE)))
        good = flat(n, lambda i: ite(data(i), unit(vec(*[get_(col(i, j)) for j in range(3)])), NIL))
        want = ite(int_lt(k, n), I_.enum(RES, 1, mk('sym', 'err')), ok(good))
        r, st = ck.run('points::load_point_cloud', [path])

        def word(rng):
            return rng.choice(['1', '-2.5', '3e2', '0.125', '7', '-0.5', '+4.'] + (['x', '1.2.3', '1;2', '3;', '2#', '#', 'a#b', '1|2', '"4"', "\x00"] if rng.random() < 0.1 and not hasattr(rng, 'near') else []))

        def content(rng):
            out = []
            for _ in range(rng.randint(1, 6)):
                m = rng.choice([0, 1, 2, 3, 3, 3, 4, 4, 5, 6])
                s = ''.join(word(rng) + rng.choice([' ', ',', '\t', ', ', '  ']) for _ in range(m))
                s = rng.choice(['', '', '', ' ', '#', '# ', ' #' if m in (0, 2) else '']) + (s if rng.random() < 0.5 else s.rstrip(' ,\t'))
                out.append(s)
            return '\n'.join(out) + rng.choice(['', '\n', '\r\n'])
        ck.equal('load', r, want, over=lambda rng: {text: ('str', content(rng))}, strict_panic=True)
    ck.oblige('load', load, 'points::load_point_cloud')
