"""The SVG drawing of a model, from classes of composite curves: the kinds of the segments are given, all
values and all numbers of points, pieces and samples are unknowns."""
from framework import *
from checks.mesh import *
from checks.geom import LI, PL, CI
from checks.eval_ import SC

SAVE = MODEL + '::save_as_svg'
POLY = 'curve::Polycurve'
BZ = 'curve::bezier::BezierCurve'


class Drawing:
    """the calls into the svg crate and the test of the kind of a boxed curve"""

    def hook(self, ip, fnref, path, args, st, dty):
        last = path.split('::')[-1]
        if path == 'svg::save' or path == 'svg::write':
            st['FX'] = cat(st['FX'], unit(agg('create', ip.snap(st, args[0]))))
            st['SVG'] = ip.deref(st, args[1])
            return ok(UNIT)
        if path.startswith('svg::'):
            if last == 'new':
                return agg('node', mk('lit', path.split('::')[-2]), NIL, NIL)
            if last in ('set', 'add'):
                n = args[0]
                if last == 'add':
                    return agg('node', n.args[1], n.args[2], cat(n.args[3], unit(ip.snap(st, args[1]))))
                return agg('node', n.args[1], cat(n.args[2], unit(agg('attr', ip.snap(st, args[1]), ip.snap(st, args[2])))), n.args[3])
            if last == 'append' or last == 'assign':
                n = ip.deref(st, args[0])
                if last == 'append':
                    v = agg('node', n.args[1], n.args[2], cat(n.args[3], unit(ip.snap(st, args[1]))))
                else:
                    v = agg('node', n.args[1], cat(n.args[2], unit(agg('attr', ip.snap(st, args[1]), ip.snap(st, args[2])))), n.args[3])
                ip.write(st, args[0], v)
                return UNIT
            raise Unsupported('call of ' + path)
        if last in ('downcast_ref', 'is'):
            e = ip.deref(st, args[0])
            while e.op in ('rv',):
                e = e.args[0]
            if e.op != 'agg':
                raise Unsupported('kind of %s' % e.op)
            a = ip.ty(fnref['args'][-1])
            n = (a.get('n') or a.get('s')).split('<')[0]
            n = norm_name(n)
            yes = n == e.args[0]
            if last == 'is':
                return TRUE if yes else FALSE
            return some(mk('rv', e)) if yes else none()
        return None


def norm_name(n):
    return n.replace('crate::', '')


def xy(p):
    import models
    t = lambda x: models.fmt_token('display', SPEC, x)
    return cat(t(p.args[1]), lit(','), t(p.args[2]))


SPEC = (('f', 0), ('w', -1), ('p', 2))


def kinds(ck):
    """segment kinds: name -> builder of (curve, range, data of the segment given whether data is empty before)"""
    lp = curve_fn(LI, 'get_point')

    def rng_(nm):
        return agg('tuple', num(nm + '.a'), num(nm + '.b'))

    def line_(nm):
        c = agg(LI, v3(nm + '.o'), v3(nm + '.d'))
        r = rng_(nm)
        at = lambda u: vadd(c.args[1], vscale(u, c.args[2]))
        return c, r, lambda first: cat(lit('M '), xy(at(r.args[1])), lit(' L '), xy(at(r.args[2])))

    def polyline(nm):
        V = seq3(nm + '.V')
        c, _ = ck.run(PL + '::new', [V])
        return c, rng_(nm), lambda first: chain(V, TRUE)

    def bspline(degree):
        def go(nm):
            c = agg(SC, seq3(nm + '.P'), agg('knot::KnotVector', seq_of(nm + '.U', num('s'))), const(degree))
            if degree == 3:
                B = pieces(c)
                cp = lambda i, k: get(field(get(B, i), 0), const(k))
                return c, rng_(nm), lambda first: flat(length(B), lambda i: cat(
                    ite(int_eq(i, ZERO), cat(lit('M '), xy(cp(i, 0)), lit(' C ')), lit(' ')), xy(cp(i, 1)), lit(' '), xy(cp(i, 2)), lit(' '), xy(cp(i, 3))))
            r = rng_(nm)
            return c, r, sampled(c, r)
        return go

    def circle(nm):
        c = agg(CI, v3(nm + '.c'), num(nm + '.r'), v3(nm + '.x'), v3(nm + '.z'))
        r = rng_(nm)
        return c, r, sampled(c, r)

    def sampled(c, r):
        S = samples(agg(CS, c, r))
        return lambda first: chain(S, first)
    return {'line': line_, 'polyline': polyline, 'cubic': bspline(3), 'quadratic': bspline(2), 'circle': circle}


def chain(V, first):
    """lines through points, from the first one on if there is no text before"""
    to = lambda i: cat(lit(' L '), xy(get(V, i)))
    begin = cat(lit('M '), xy(get(V, ZERO)))
    return flat(length(V), lambda i: ite(b_and(int_eq(i, ZERO), first), begin, to(i)))


def pieces(c):
    return base(mk('app', 'pieces', c), shape(agg(BZ, base(mk('sym', 's'), shape(v3('s'))))))


def samples(seg):
    return base(mk('app', 'samples', seg), shape(v3('s')))


def p_svg(ck):
    K = kinds(ck)
    W, H = num('w'), num('h')
    path = sym('path')

    def case(curves):
        nm = ';'.join('+'.join(c) for c in curves) or 'empty'

        def go():
            cs, want = [], []
            for i, c in enumerate(curves):
                segs, data = [], NIL
                for j, kind in enumerate(c):
                    cv, r, d = K[kind]('%d.%d' % (i, j))
                    segs.append(agg(CS, cv, r, num('t%d.%d' % (i, j)), num('n%d.%d' % (i, j), 'u')))
                    data = cat(data, d(TRUE if data is NIL else int_eq(length(data), ZERO)))
                cs.append(agg(POLY, cat(*[unit(s) for s in segs]) if segs else NIL))
                want.append(data)
            self_ = agg(MODEL, base(sym('F'), mk('shape', 'x')), cat(*[unit(c) for c in cs]) if cs else NIL)
            gp = [x for x in ck.prog.norm if x.startswith('curve::CurveSegment') and x.endswith('::get_points')]
            pb = [x for x in ck.prog.norm if x.startswith(SC) and x.endswith('::to_piecewise_bezier')]

            def seg(ip, args, st, dty):
                s = ip.snap(st, args[0])
                while s.op == 'rv':
                    s = s.args[0]
                return samples(agg(CS, s.args[1], s.args[2]))

            def split(ip, args, st, dty):
                s = ip.snap(st, args[0])
                while s.op == 'rv':
                    s = s.args[0]
                return pieces(s)
            hooks = {x: seg for x in gp}
            hooks.update({x: split for x in pb})
            r, st = ck.run(SAVE, [rv(self_), path, agg('tuple', W, H)], ext_hook=Drawing().hook, hooks=hooks, unroll=-16)
            ck.equal(nm + '/result', r, ok(UNIT))
            created(ck, nm, st, path)
            doc = st['SVG']
            A = attrs(doc)
            import models
            size = lambda x: cat(models.fmt_token('display', (), x), lit('mm'))
            ck.equal(nm + '/width', A['width'], size(W))
            ck.equal(nm + '/height', A['height'], size(H))
            kids = doc.args[3]
            ck.equal(nm + '/group', length(kids), ONE)
            g = get(kids, ZERO)
            ck.equal(nm + '/paths', length(g.args[3]), const(len(curves)))
            for i, w in enumerate(want):
                ck.equal('%s/%d/data' % (nm, i), attrs(get(g.args[3], const(i)))['d'], w, guess=append_guess)
        ck.oblige(nm, go, SAVE)
    for k in K:
        case([[k]])
    case([])
    for a in K:
        for b in K:
            case([[a, b]])
    case([['line', 'line', 'circle'], ['polyline']])
    case([['quadratic', 'polyline', 'cubic'], ['circle'], ['line']])
    case([['circle', 'line', 'quadratic'], ['cubic', 'cubic']])


def append_guess(K, init, L, kinds):
    """invariant of a loop that appends in each round: what the first round appends to the start value, then
    what the other rounds append to text that is there"""
    if kinds != ('seq',):
        return None
    x0 = init.args[1]

    def added(i, before):
        x = inst(L, i, before).args[1]

        def leaf(y):
            p, q = list(parts(before)), list(parts(y)) if y is not NIL else []
            if q[:len(p)] != p:
                raise Skip('not an appending loop')
            return cat(*q[len(p):])
        return T_.lift_leaves(leaf, x)
    some_text = num_text(num('text'))
    try:
        a0 = added(ZERO, x0)
        added(ONE, some_text)
    except Skip:
        return None

    def item(i):
        return ite(int_eq(i, ZERO), a0, added(i, some_text))

    def inv(k):
        return [cat(x0, flat(k, item))]
    return inv, lambda k: [cat(inv(k)[0], item(k))]


def attrs(node):
    if node.op == 'ite':        # the same attributes either way, of different values
        return either(node, attrs)
    return attributes(node.args[2])


def either(t, f):
    ways = [f(k) for k in t.args[1:] if k is not BOT]
    return {n: T_.mk_ite(t.args[0], [BOT if k is BOT else f(k)[n] for k in t.args[1:]]) for n in ways[0]}


def attributes(s):
    if s.op == 'ite':
        return either(s, attributes)
    out = {}
    for a in parts(s):
        if a.op != 'unit':
            raise Unsupported('attributes of a drawing')
        a = a.args[0]
        a = either(a, lambda x: {text(x.args[1]): x.args[2]}) if a.op == 'ite' else {text(a.args[1]): a.args[2]}
        out.update(a)
    return out


def text(t):
    while t.op == 'rv':
        t = t.args[0]
    return ''.join(str(p.args[0].args[0]) for p in parts(t))
