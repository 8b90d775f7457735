"""What the STEP reader builds, from classes of files: the kinds of the referenced entities and the
optional attributes are given, the values of all attributes are unknowns."""
from framework import *
from checks.eval_ import SC, KV, BC
from checks.geom import field, CI, LI, PL, CY, PN, CS

READ = 'model::step_reader::ModelReader::read_model'
AP = 'iso_10303_parts::ap214::'
ER = 'iso_10303::step::EntityRef'
REAL = 'iso_10303::step::Real'
TS = AP + 'TrimmingSelect'
PROJECT, REFINE = 'curve::Curve::project', 'curve::Curve::refine_parameter_range'
X, Y, Z = vec(ONE, ZERO, ZERO), vec(ZERO, ONE, ZERO), vec(ZERO, ZERO, ONE)


def real(x):
    return agg(REAL, x)


def reals(*xs):
    return cat(*[unit(real(x)) for x in xs])


class World:
    """entities by kind: kind -> (type, attributes); attributes are functions of the index terms of the reference"""

    def __init__(self):
        self.ents = {}
        self.heads = {}         # type -> list of references enumerated by get_entities

    def add(self, kind, typ, *idx, **attrs):
        self.ents[kind] = (typ, {k: (v if callable(v) else (lambda *i, v=v: v)) for k, v in attrs.items()})
        return self.ref(kind, *idx)

    def ref(self, kind, *idx):
        return agg(ER, atom(mk('app', '#' + kind, *idx)))

    def point(self, kind, *idx):
        """a cartesian point: reference and value"""
        c = lambda *i: [num_at(kind, k, *i) for k in range(3)]
        r = self.add(kind, 'CartesianPoint', *idx, coordinates=lambda *i: reals(*c(*i)))
        return r, vec(*c(*idx))

    def direction(self, kind):
        """a direction of any length: reference, ratios and unit vector"""
        c = [num_at(kind, k) for k in range(3)]
        r = self.add(kind, 'Direction', direction_ratios=reals(*c))
        v = vec(*c)
        return r, vscale(div(ONE, norm_(v)), v)

    # ---- calls into the STEP library
    def hook(self, ip, fnref, path, args, st, dty):
        last = path.split('::')[-1]
        if path.startswith(AP) or path.startswith('iso_10303::'):
            if path == AP + 'Ap214Reader::new':
                return agg('reader')
            if last == 'read':
                return ok(UNIT)
            if last == 'get_entity':
                return self.get(ip.deref(st, args[1]), self.targ(ip, fnref))
            if last == 'get_entities':
                t = self.targ(ip, fnref)
                xs = [mk('rv', self.entity(r)) for r in self.heads.get(t, [])]
                return self.iterator(ip, st, xs)
            if last == 'get_type_name':
                return mk('rv', base(mk('sym', 'typename'), mk('shape', 'x')))
            e = ip.deref(st, args[0])
            if e.op == 'agg' and str(e.args[0]).startswith('entity:'):
                return self.attribute(e, last, dty, ip)
            return None
        if last == 'downcast_ref':
            e = ip.deref(st, args[0])
            if e.op == 'agg' and str(e.args[0]).startswith('entity:'):
                return some(mk('rv', e)) if e.args[0] == 'entity:' + self.targ(ip, fnref) else none()
        return None

    def iterator(self, ip, st, xs):
        return ip.models.to_it(ip, st, cat(*[unit(x) for x in xs]) if xs else NIL)

    def targ(self, ip, fnref):
        a = ip.ty(fnref['args'][-1])
        n = a.get('n') or a.get('s')
        if n.startswith(AP):
            return n[len(AP):]
        return 'complex' if n.startswith('std::vec::Vec') else n

    def entity(self, r):
        key = T_.as_atom(r.args[1])
        kind = key.args[0][1:]
        return agg('entity:' + self.ents[kind][0], atom(key))

    def get(self, r, typ):
        def leaf(x):
            if x.op != 'agg':
                raise Unsupported('reference %s' % x.op)
            e = self.entity(x)
            if e.args[0] != 'entity:' + typ:
                return none()
            if typ == 'complex':
                return some(mk('rv', self.ents[T_.as_atom(e.args[1]).args[0][1:]][1]['parts']()))
            return some(mk('rv', e))
        return T_.lift_leaves(leaf, r)

    def attribute(self, e, name, dty, ip):
        key = T_.as_atom(e.args[1])
        kind = key.args[0][1:]
        attrs = self.ents[kind][1]
        v = attrs[name](*key.args[1:]) if name in attrs else None
        isref = dty is not None and ip.ty(dty)['k'] == 'ref'
        if v is None:
            # an attribute the property does not speak about: any value
            t = mk('app', 'attr:' + name, key)
            return ip.havoc(dty, t)
        return mk('rv', v) if isref else v


def num_at(kind, k, *idx):
    return atom(mk('app', '%s.%d' % (kind, k), *idx)) if idx else num('%s.%d' % (kind, k))


def flag(name, *idx):
    return T_.b_atom('val', mk('app', name, *idx) if idx else sym(name))


def axes(w, name, axis, refd):
    """an axis placement: reference, location, z and x"""
    lr, loc = w.point(name + '.loc')
    zr, z = w.direction(name + '.axis')
    rr, d = w.direction(name + '.ref')
    r = w.add(name, 'Axis2Placement3d', location=lr, axis=some(zr) if axis else none(), ref_direction=some(rr) if refd else none())
    if not axis:
        z = Z
    if not refd:
        zero = TRUE
        for k in cross(z, X).args[1:]:
            zero = b_and(zero, T_.real_eq(k, ZERO))
        d = vec(*[ite(zero, a, b) for a, b in zip(Y.args[1:], X.args[1:])])
    x = vsub(d, vscale(dot(d, z), z))
    return r, loc, z, vscale(div(ONE, norm_(x)), x)


def read(ck, w, faces=(), curves=(), **kw):
    w.heads = {'AdvancedFace': list(faces), 'CompositeCurve': list(curves)}
    kw.setdefault('unroll', -16)
    r, st = ck.run(READ, [sym('file')], ext_hook=w.hook, opaque=(PROJECT, REFINE), **kw)
    return r


def result(r):
    """the model read, and the condition under which there is one"""
    def leaf(x):
        if x is BOT:
            return BOT
        if x.op != 'enum' or x.args[0] != RES:
            raise Unsupported('result %s' % x.op)
        return x.args[2] if x.args[1] == 0 else BOT
    return T_.lift_leaves(leaf, r)


def plane(w, name='pos'):
    ar, o, z, x = axes(w, name, True, True)
    return w.add(name + '.plane', 'Plane', position=ar), o, z, x


def point_list(w, kind, n):
    """n points: references and values"""
    w.point(kind)
    w.ents[kind] = ('CartesianPoint', {'coordinates': lambda i: reals(*[num_at(kind, k, i) for k in range(3)])})
    return comp(n, lambda i: w.ref(kind, i)), comp(n, lambda i: vec(*[num_at(kind, k, i) for k in range(3)]))


def point_net(w, kind, n, m):
    w.ents[kind] = ('CartesianPoint', {'coordinates': lambda i, j: reals(*[num_at(kind, k, i, j) for k in range(3)])})
    return (comp(n, lambda i: comp(m, lambda j: w.ref(kind, i, j))),
            lambda i, j: vec(*[num_at(kind, k, i, j) for k in range(3)]))


def at(name, *i):
    return atom(mk('app', name, *i))


def nat(name, *i):
    t = mk('app', name, *i)
    facts.nonneg.add(t)
    return atom(t)


def multiplicity(env, vals):
    """a multiplicity for a random interpretation"""
    h = E_.h64(env.seed, *[int(v) for v in vals])
    return max(1, env.near - 2 + h // 7 % 5) if env.near and h % 3 == 0 else 1 + h // 7 % 4


MULTS = {}


def knot_list(name, n):
    """n knot values with multiplicities: attributes and the knots they stand for"""
    MULTS[name + '.m'] = multiplicity
    return (comp(n, lambda i: real(at(name + '.u', i))), comp(n, lambda i: nat(name + '.m', i)),
            agg(KV, flat(n, lambda i: comp(nat(name + '.m', i), lambda j: at(name + '.u', i)))))


def size(name, lo=1):
    x = num(name, 'u')
    facts.lo[sym(name)] = const(lo)
    return x


# ---- the supported curves: class name -> builder of (reference, expected curve)
def c_line(w, nm='line'):
    lr, o = w.point(nm + '.pnt')
    dr, d = w.direction(nm + '.dir')
    v = w.add(nm + '.vector', 'Vector', orientation=dr, magnitude=real(num(nm + '.mag')))
    return w.add(nm, 'Line', pnt=lr, dir=v), agg(LI, o, vscale(num(nm + '.mag'), d))


def c_circle(axis, refd):
    def go(w, nm='circle'):
        ar, o, z, x = axes(w, nm + '.pos', axis, refd)
        return w.add(nm, 'Circle', position=ar, radius=real(num(nm + '.r'))), agg(CI, o, num(nm + '.r'), z, x)
    return go


def c_polyline(ck):
    def go(w, nm='polyline'):
        n = size(nm + '.n')
        refs, vals = point_list(w, nm + '.p', n)
        want, _ = ck.run(PL + '::new', [vals])
        return w.add(nm, 'Polyline', points=refs), want
    return go


def c_bspline(w, nm='bspline'):
    n, k = size(nm + '.n'), size(nm + '.k')
    refs, vals = point_list(w, nm + '.p', n)
    us, ms, knots = knot_list(nm, k)
    p = nat(nm + '.degree', ZERO)
    return (w.add(nm, 'BSplineCurveWithKnots', degree=p, control_points_list=refs, knots=us, knot_multiplicities=ms),
            agg(SC, vals, knots, p))


def curves_of(ck):
    out = {'line': c_line, 'polyline': c_polyline(ck), 'bspline': c_bspline}
    for a in (True, False):
        for b in (True, False):
            out['circle/%s%s' % ('axis' if a else 'default', '+ref' if b else '')] = c_circle(a, b)
    return out


def project(c, p):
    return vcall(PROJECT, 1, c, p)


def refine(c, a, b, sense):
    """the refined range, built as the interpreter builds calls"""
    def go(args):
        best = None
        for x in args:
            for q in deep_conds(x):
                if best is None or ckey(q) < ckey(best):
                    best = q
        if best is not None:
            return T_.mk_ite(best, [go([deep_cof(x, best, i) for x in args]) for i in range(arity(best))])
        t = mk('app', REFINE, *args)
        return agg('tuple', *[atom(proj_(t, (i,))) for i in range(2)])
    return go([c, agg('tuple', a, b), sense])


def swapped(r, same):
    """a range, reversed unless the flag is set"""
    a, b = field(r, 0), field(r, 1)
    return agg('tuple', ite(same, a, b), ite(same, b, a))


def edge_refs(w, curve_ref, nm='e', oriented=None, sense=None):
    """an oriented edge over a curve: reference and a function from the curve to its range"""
    pr, p = w.point(nm + '.start')
    qr, q = w.point(nm + '.end')
    sense = flag(nm + '.sense') if sense is None else sense
    oriented = flag(nm + '.orientation') if oriented is None else oriented
    e = w.add(nm, 'EdgeCurve', edge_start=w.add(nm + '.v0', 'VertexPoint', vertex_geometry=pr),
              edge_end=w.add(nm + '.v1', 'VertexPoint', vertex_geometry=qr), edge_geometry=curve_ref, same_sense=sense)
    oe = w.add(nm + '.oriented', 'OrientedEdge', edge_element=e, orientation=oriented)
    return oe, lambda c: swapped(refine(c, project(c, p), project(c, q), sense), oriented)


def loop_face(w, oes, orientation, nm='f', bound='FaceBound', surface=None):
    lp = w.add(nm + '.loop', 'EdgeLoop', edge_list=cat(*[unit(x) for x in oes]))
    b = w.add(nm + '.bound', bound, bound=lp, orientation=orientation)
    return w.add(nm, 'AdvancedFace', bounds=cat(unit(b)), face_geometry=surface, same_sense=TRUE)


def p_attributes(ck):
    ck.unfold = MULTS
    def curve(name, make):
        def go():
            w = World()
            cr, c = make(w)
            oe, rg = edge_refs(w, cr, oriented=TRUE, sense=TRUE)
            f = loop_face(w, [oe], TRUE, surface=plane(w)[0])
            m = result(read(ck, w, [f]))
            ck.equal('edge-curve/' + name, field(get(field(get(field(get(field(m, 0), ZERO), 1), ZERO), 0), ZERO), 0), c, strict_panic=True)
        ck.oblige('edge-curve/' + name, go, READ)

    def trimmed(name, make):
        def go():
            w = World()
            cr, c = make(w)
            k = composite(w, [cr], 'k')
            m = result(read(ck, w, [], [k[0]]))
            ck.equal('composite/' + name, field(get(field(get(field(m, 1), ZERO), 0), ZERO), 0), c, strict_panic=True)
        ck.oblige('composite/' + name, go, READ)
    for name, make in curves_of(ck).items():
        curve(name, make)
        trimmed(name, make)

    def surface(name, make, **kw):
        def go():
            w = World()
            sr, s = make(w)
            f = w.add('f', 'AdvancedFace', bounds=NIL, face_geometry=sr, same_sense=flag('face_sense'))
            m = result(read(ck, w, [f], **kw))
            ck.equal('surface/' + name, field(get(field(m, 0), ZERO), 0), s, strict_panic=True)
        ck.oblige('surface/' + name, go, READ)

    def s_plane(a, b):
        def go(w):
            ar, o, z, x = axes(w, 'pos', a, b)
            n = vec(*[ite(flag('face_sense'), k, neg(k)) for k in z.args[1:]])
            return w.add('s', 'Plane', position=ar), agg(PN, o, n, x, cross(n, x))
        return go

    def s_cylinder(a, b):
        def go(w):
            ar, o, z, x = axes(w, 'pos', a, b)
            return w.add('s', 'CylindricalSurface', position=ar, radius=real(num('r'))), agg(CY, o, z, x, num('r'))
        return go
    for a in (True, False):
        for b in (True, False):
            t = '%s%s' % ('axis' if a else 'default', '+ref' if b else '')
            surface('plane/' + t, s_plane(a, b))
            surface('cylinder/' + t, s_cylinder(a, b))

    def net(w, weights=False):
        n, m = size('n'), size('m')
        refs, v = point_net(w, 'cp', n, m)
        if weights:
            ws = comp(n, lambda i: comp(m, lambda j: real(at('weight', i, j))))
            f = lambda i, j: vec(*[mul(x, at('weight', i, j)) for x in v(i, j).args[1:]] + [at('weight', i, j)])
        else:
            ws, f = None, v
        return refs, ws, agg('grid', flat(n, lambda i: comp(m, lambda j: f(i, j))), n, m)
    degree = (nat('p', ZERO), nat('q', ZERO))

    def s_bezier(w):
        refs, _, g = net(w)
        want, _ = ck.run('surface::bezier::BezierSurface::new', [g])
        return w.add('s', 'BezierSurface', control_points_list=refs, u_degree=degree[0], v_degree=degree[1]), want
    surface('bezier', s_bezier)

    SN = lambda k: 'surface::bspline::BSplineSurface::' + k

    def s_uniform(weights):
        def go(w):
            refs, ws, g = net(w, weights)
            want, _ = ck.run(SN('uniform_clamped'), [g, agg('tuple', *degree)])
            kw = dict(control_points_list=refs, u_degree=degree[0], v_degree=degree[1])
            if weights:
                kw['weights_data'] = ws
            return w.add('s', 'RationalBSplineSurface' if weights else 'BSplineSurface', **kw), want
        return go
    surface('bspline', s_uniform(False))
    surface('rational-bspline', s_uniform(True))

    def s_knots(w):
        refs, ws, g = net(w)
        us, ums, U = knot_list('ku', size('nu'))
        vs, vms, V = knot_list('kv', size('nv'))
        want, _ = ck.run(SN('new'), [g, agg('tuple', U, V), agg('tuple', *degree)])
        return w.add('s', 'BSplineSurfaceWithKnots', control_points_list=refs, u_degree=degree[0], v_degree=degree[1],
                     u_knots=us, v_knots=vs, u_multiplicities=ums, v_multiplicities=vms), want
    surface('bspline-with-knots', s_knots)

    def s_complex(w):
        refs, ws, g = net(w, True)
        us, ums, U = knot_list('ku', size('nu'))
        vs, vms, V = knot_list('kv', size('nv'))
        want, _ = ck.run(SN('new'), [g, agg('tuple', U, V), agg('tuple', *degree)])
        a = w.add('s.a', 'BSplineSurface', control_points_list=refs, u_degree=degree[0], v_degree=degree[1])
        b = w.add('s.b', 'BSplineSurfaceWithKnots', u_knots=us, v_knots=vs, u_multiplicities=ums, v_multiplicities=vms)
        c = w.add('s.c', 'RationalBSplineSurface', weights_data=ws)
        o = [w.add('s.o%d' % k, t) for k, t in enumerate(('BoundedSurface', 'GeometricRepresentationItem'))]
        return w.add('s', 'complex', parts=lambda: cat(*[unit(w.entity(x)) for x in (o[0], a, b, o[1], c)])), want
    surface('rational-bspline-with-knots', s_complex, unroll=-16)

    def s_spin(axis, make, t):
        def go(w):
            cr, c = make(w)
            lr, o = w.point('a.loc')
            zr, z = w.direction('a.axis')
            ar = w.add('a', 'Axis1Placement', location=lr, axis=some(zr) if axis else none())
            return w.add('s', 'SurfaceOfRevolution', swept_curve=cr, axis_position=ar), agg('surface::spin::SpinSurface', o, z if axis else Z, c)
        surface('revolution/%s' % t, go)
    s_spin(True, c_line, 'line')
    s_spin(False, c_line, 'line/default')
    s_spin(True, c_circle(True, True), 'circle')
    s_spin(True, c_bspline, 'bspline')


def composite(w, curve_refs, nm, selects=None):
    """a composite curve of trimmed curves: reference and the functions from the curves to their ranges"""
    segs, fs = [], []
    for i, cr in enumerate(curve_refs):
        t = '%s.%d' % (nm, i)
        a, b = num(t + '.a'), num(t + '.b')
        pv = lambda x: T_.enum(TS, 1, real(x))
        cp = lambda s: T_.enum(TS, 0, w.point(t + s)[0])
        forms = [lambda x, s: cat(unit(pv(x))), lambda x, s: cat(unit(cp(s)), unit(pv(x))), lambda x, s: cat(unit(pv(x)), unit(cp(s)))]
        f = forms[(selects or 0) % 3]
        sense, agree = flag(t + '.sense'), flag(t + '.agree')
        tc = w.add(t + '.trimmed', 'BoundedCurve') if cr is None else w.add(t + '.trimmed', 'TrimmedCurve', basis_curve=cr, trim_1=f(a, '.p1'), trim_2=f(b, '.p2'), sense_agreement=agree)
        segs.append(w.add(t, 'CompositeCurveSegment', parent_curve=tc, same_sense=sense))
        fs.append(lambda c, a=a, b=b, sense=sense, agree=agree: swapped(refine(c, a, b, agree), sense))
    return w.add(nm, 'CompositeCurve', segments=cat(*[unit(s) for s in segs])), fs


# ------------------------------------------------------------------ structure and orientation
def p_structure(ck):
    ck.unfold = MULTS
    def edges_are(name, loop, curves, ranges):
        """edges of a loop: lists of curves and ranges"""
        es = field(loop, 0)
        ck.equal(name + '/count', length(es), const(len(curves)), strict_panic=True)
        for i, (c, r) in enumerate(zip(curves, ranges)):
            e = get(es, const(i))
            ck.equal('%s/%d/curve' % (name, i), field(e, 0), c, strict_panic=True)
            ck.equal('%s/%d/range' % (name, i), field(e, 1), r, strict_panic=True)

    def loops(bound, makes, orientation):
        def go():
            w = World()
            oes, cs, rs = [], [], []
            for i, make in enumerate(makes):
                cr, c = make(w, 'c%d' % i)
                oe, rg = edge_refs(w, cr, 'e%d' % i)
                oes.append(oe)
                cs.append(c)
                rs.append(rg(c))
            f = loop_face(w, oes, orientation, bound=bound, surface=plane(w)[0])
            m = result(read(ck, w, [f]))
            if orientation is FALSE:
                cs = cs[::-1]
                rs = [agg('tuple', field(r, 1), field(r, 0)) for r in rs[::-1]]
            b = field(get(field(m, 0), ZERO), 1)
            nm = 'loop/%s/%s' % (bound, orientation.op)
            ck.equal(nm + '/bounds', length(b), ONE, strict_panic=True)
            edges_are(nm, get(b, ZERO), cs, rs)
        return go
    for bound in ('FaceBound', 'FaceOuterBound'):
        for o in (TRUE, FALSE):
            ck.oblige('loop', loops(bound, [c_line, c_circle(True, True), c_line], o), READ)
    ck.oblige('loop', loops('FaceBound', [c_bspline, c_polyline(ck)], FALSE), READ)

    def long_loop(orientation):
        """a loop of any number of edges over lines"""
        def go():
            w = World()
            n = size('n')
            v = lambda t, i: vec(*[at('%s.%d' % (t, k), i) for k in range(3)])
            P = lambda t: ('CartesianPoint', {'coordinates': lambda i: reals(*v(t, i).args[1:])})
            for t in ('o', 'a', 'b'):
                w.ents[t] = P(t)
            w.ents['d'] = ('Direction', {'direction_ratios': lambda i: reals(*v('d', i).args[1:])})
            w.ents['v'] = ('Vector', {'orientation': lambda i: w.ref('d', i), 'magnitude': lambda i: real(at('mag', i))})
            w.ents['line'] = ('Line', {'pnt': lambda i: w.ref('o', i), 'dir': lambda i: w.ref('v', i)})
            w.ents['va'] = ('VertexPoint', {'vertex_geometry': lambda i: w.ref('a', i)})
            w.ents['vb'] = ('VertexPoint', {'vertex_geometry': lambda i: w.ref('b', i)})
            w.ents['e'] = ('EdgeCurve', {'edge_start': lambda i: w.ref('va', i), 'edge_end': lambda i: w.ref('vb', i),
                                         'edge_geometry': lambda i: w.ref('line', i), 'same_sense': lambda i: flag('sense', i)})
            w.ents['oe'] = ('OrientedEdge', {'edge_element': lambda i: w.ref('e', i), 'orientation': lambda i: flag('orient', i)})
            w.add('loop', 'EdgeLoop', edge_list=comp(n, lambda i: w.ref('oe', i)))
            b = w.add('bound', 'FaceBound', bound=w.ref('loop'), orientation=orientation)
            f = w.add('f', 'AdvancedFace', bounds=cat(unit(b)), face_geometry=plane(w)[0], same_sense=TRUE)
            m = result(read(ck, w, [f]))

            def curve(i):
                d = v('d', i)
                return agg(LI, v('o', i), vscale(div(at('mag', i), norm_(d)), d))

            def rng_(i):
                c = curve(i)
                r = swapped(refine(c, project(c, v('a', i)), project(c, v('b', i)), flag('sense', i)), flag('orient', i))
                return r if orientation is TRUE else agg('tuple', field(r, 1), field(r, 0))
            ix = (lambda i: i) if orientation is TRUE else (lambda i: sub(sub(n, ONE), i))
            es = field(get(field(get(field(m, 0), ZERO), 1), ZERO), 0)
            nm = 'any-loop/%s' % orientation.op
            got = T_.lift_leaves(lambda s: comp(length(s), lambda i: agg('e', field(get(s, i), 0), field(get(s, i), 1))), es)
            ck.equal(nm, got, comp(n, lambda i: agg('e', curve(ix(i)), rng_(ix(i)))), strict_panic=True, over=lambda rng: {sym('n'): rng.randint(1, 5)})
        return go
    for o in (TRUE, FALSE):
        ck.oblige('any-loop', long_loop(o), READ)

    def faces():
        """several faces and bounds: every supported face, in order, with its own loops"""
        w = World()
        refs, want = [], []
        n = 0
        for k, nb in enumerate((1, None, 2, 0)):
            if nb is None:
                bad = w.add('bad.surface', 'ToroidalSurface')
                refs.append(w.add('bad', 'AdvancedFace', bounds=NIL, face_geometry=bad, same_sense=TRUE))
                continue
            bs, wl = [], []
            for j in range(nb):
                oes, cs, rs = [], [], []
                for i in range(1 + j):
                    cr, c = c_line(w, 'c%d' % n)
                    oe, rg = edge_refs(w, cr, 'e%d' % n)
                    n += 1
                    oes.append(oe)
                    cs.append(c)
                    rs.append(rg(c))
                lp = w.add('loop%d.%d' % (k, j), 'EdgeLoop', edge_list=cat(*[unit(x) for x in oes]))
                bs.append(w.add('bound%d.%d' % (k, j), 'FaceBound' if j else 'FaceOuterBound', bound=lp, orientation=TRUE))
                wl.append((cs, rs))
            pl, o, z, x = plane(w, 'pos%d' % k)
            refs.append(w.add('f%d' % k, 'AdvancedFace', bounds=cat(*[unit(b) for b in bs]) if bs else NIL, face_geometry=pl, same_sense=TRUE))
            want.append((o, wl))
        m = result(read(ck, w, refs))
        fs = field(m, 0)
        ck.equal('faces/count', length(fs), const(len(want)), strict_panic=True)
        for k, (o, wl) in enumerate(want):
            f = get(fs, const(k))
            ck.equal('faces/%d/surface' % k, field(field(f, 0), 0), o, strict_panic=True)
            ck.equal('faces/%d/bounds' % k, length(field(f, 1)), const(len(wl)), strict_panic=True)
            for j, (cs, rs) in enumerate(wl):
                edges_are('faces/%d/%d' % (k, j), get(field(f, 1), const(j)), cs, rs)
    ck.oblige('faces', faces, READ)

    def composites(form):
        def go():
            w = World()
            a = [c_line(w, 'a0'), c_circle(True, True)(w, 'a1'), c_line(w, 'a2')]
            b = [c_bspline(w, 'b0')]
            ka, fa = composite(w, [x[0] for x in a], 'ka', form)
            kb, fb = composite(w, [x[0] for x in b], 'kb', form)
            cs = field(result(read(ck, w, [], [ka, kb])), 1)
            nm = 'composite/%d' % form
            ck.equal(nm + '/count', length(cs), const(2), strict_panic=True)
            for k, (curves, fs) in enumerate(((a, fa), (b, fb))):
                s = field(get(cs, const(k)), 0)
                ck.equal('%s/%d/count' % (nm, k), length(s), const(len(curves)), strict_panic=True)
                for i, ((_, c), f) in enumerate(zip(curves, fs)):
                    e = get(s, const(i))
                    ck.equal('%s/%d.%d/curve' % (nm, k, i), field(e, 0), c, strict_panic=True)
                    ck.equal('%s/%d.%d/range' % (nm, k, i), field(e, 1), f(c), strict_panic=True)
        return go
    for form in range(3):
        ck.oblige('composite', composites(form), READ)

    def skipped(orientation):
        """edges over curves of an unsupported kind and bounds that are no edge loops leave the others in place"""
        def go():
            w = World()
            oes, cs, rs = [], [], []
            for i, make in enumerate((c_line, None, c_circle(True, True), None, c_line)):
                cr, c = make(w, 'c%d' % i) if make else (w.add('c%d' % i, 'Ellipse'), None)
                oe, rg = edge_refs(w, cr, 'e%d' % i)
                oes.append(oe)
                if make:
                    cs.append(c)
                    rs.append(rg(c))
            lp = w.add('loop', 'EdgeLoop', edge_list=cat(*[unit(x) for x in oes]))
            vl = w.add('vertex.loop', 'VertexLoop')
            bs = [w.add('bound.v', 'FaceBound', bound=vl, orientation=TRUE), w.add('bound', 'FaceBound', bound=lp, orientation=orientation)]
            f = w.add('f', 'AdvancedFace', bounds=cat(*[unit(b) for b in bs]), face_geometry=plane(w)[0], same_sense=TRUE)
            b = field(get(field(result(read(ck, w, [f])), 0), ZERO), 1)
            if orientation is FALSE:
                cs = cs[::-1]
                rs = [agg('tuple', field(r, 1), field(r, 0)) for r in rs[::-1]]
            nm = 'skipped/loop/%s' % orientation.op
            ck.equal(nm + '/bounds', length(b), ONE, strict_panic=True)
            edges_are(nm, get(b, ZERO), cs, rs)
        return go
    for o in (TRUE, FALSE):
        ck.oblige('skipped', skipped(o), READ)

    def skipped_segments():
        w = World()
        a = [c_line(w, 'a0'), None, c_circle(True, True)(w, 'a2'), (w.add('a3', 'Ellipse'), None), c_line(w, 'a4')]
        ka, fs = composite(w, [x and x[0] for x in a], 'ka')
        cs = field(result(read(ck, w, [], [ka])), 1)
        ck.equal('skipped/composite/count', length(cs), ONE, strict_panic=True)
        s = field(get(cs, ZERO), 0)
        kept = [(x[1], f) for x, f in zip(a, fs) if x and x[1] is not None]
        ck.equal('skipped/composite/segments', length(s), const(len(kept)), strict_panic=True)
        for i, (c, f) in enumerate(kept):
            e = get(s, const(i))
            ck.equal('skipped/composite/%d/curve' % i, field(e, 0), c, strict_panic=True)
            ck.equal('skipped/composite/%d/range' % i, field(e, 1), f(c), strict_panic=True)
    ck.oblige('skipped', skipped_segments, READ)

    def many(faces, bounds):
        def go():
            w = World()
            refs, want = [], []
            for k in range(faces):
                bs = []
                for j in range(bounds):
                    t = '%d.%d' % (k, j)
                    cr, c = c_line(w, 'c' + t)
                    oe, rg = edge_refs(w, cr, 'e' + t, oriented=TRUE, sense=TRUE)
                    lp = w.add('loop' + t, 'EdgeLoop', edge_list=cat(unit(oe)))
                    bs.append((w.add('bound' + t, 'FaceBound', bound=lp, orientation=TRUE), c, rg(c)))
                pl, o, z, x = plane(w, 'pos%d' % k)
                refs.append(w.add('f%d' % k, 'AdvancedFace', bounds=cat(*[unit(b[0]) for b in bs]), face_geometry=pl, same_sense=TRUE))
                want.append((o, bs))
            fs = field(result(read(ck, w, refs, [], unroll=-40)), 0)
            ck.equal('many/faces', length(fs), const(faces), strict_panic=True)
            for k, (o, bs) in enumerate(want):
                f = get(fs, const(k))
                ck.equal('many/%d/surface' % k, field(field(f, 0), 0), o, strict_panic=True)
                ck.equal('many/%d/bounds' % k, length(field(f, 1)), const(len(bs)), strict_panic=True)
                for j, (_, c, r) in enumerate(bs):
                    edges_are('many/%d/%d' % (k, j), get(field(f, 1), const(j)), [c], [r])
        return go
    ck.oblige('many', many(18, 1), READ)
    ck.oblige('many', many(1, 18), READ)
