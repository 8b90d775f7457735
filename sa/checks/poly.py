"""Plane polygons: predicates and ear clipping, decided for classes of orientations."""
import itertools
import json
import os
from fractions import Fraction

import models
from framework import *
from checks.geom import pt, pts, field

U = 'utils::polygon::'


# ------------------------------------------------------------------ orientation classes
class Chi:
    """signs of all triples of n labelled points"""

    def __init__(self, n, signs):
        self.at = None
        self.n, self.s = n, signs          # {(i, j, k) with i < j < k: sign}

    def __call__(self, i, j, k):
        if len({i, j, k}) < 3:
            return 0
        t = [i, j, k]
        p = 1
        for a in range(2):
            for b in range(2 - a):
                if t[b] > t[b + 1]:
                    t[b], t[b + 1] = t[b + 1], t[b]
                    p = -p
        return p * self.s[tuple(t)]


def systems(n):
    """all orientations of n labelled points in general position (Knuth's axioms for CC systems;
    every one of up to 8 points is realised by points of the plane)"""
    if n == 3:
        for s in (1, -1):
            yield {(0, 1, 2): s}
        return
    m = n - 1
    prs = list(itertools.combinations(range(m), 2))
    for base_ in systems(m):
        chi = Chi(m, base_)
        # signs (i, j, m), extended pair by pair, every pair of indices with every third point checked
        def ext(k, cur):
            if k == len(prs):
                s = dict(base_)
                s.update({(i, j, m): v for (i, j), v in cur.items()})
                yield s
                return
            for v in (1, -1):
                cur[prs[k]] = v
                if fits(chi, cur, prs[k], m):
                    yield from ext(k + 1, cur)
            del cur[prs[k]]
        yield from ext(0, {})


def fits(chi, cur, pair, m):
    """interiority and transitivity wherever the signs are known"""
    def s(i, j, k):
        if m in (i, j, k):
            # rotate m to the end
            if i == m:
                i, j, k = j, k, i
            elif j == m:
                i, j, k = k, i, j
            v = cur.get((i, j)) if i < j else cur.get((j, i))
            return None if v is None else (v if i < j else -v)
        return chi(i, j, k)
    n = m
    a, b = pair
    for c in range(n):
        if c in (a, b):
            continue
        # 4 points a, b, c, m
        if not four(s, (a, b, c, m)):
            return False
        for d in range(c):
            if d in (a, b):
                continue
            if not five(s, (a, b, c, d, m)):
                return False
    return True


def four(s, pts_):
    for t, p, q, r in itertools.permutations(pts_, 4):
        x = (s(t, q, r), s(p, t, r), s(p, q, t))
        if x == (1, 1, 1) and s(p, q, r) == -1:
            return False
    return True


def five(s, pts_):
    for t, a, p, q, r in itertools.permutations(pts_, 5):
        if s(t, a, p) == 1 and s(t, a, q) == 1 and s(t, a, r) == 1 and s(t, p, q) == 1 and s(t, q, r) == 1 and s(t, p, r) == -1:
            return False
    return True


def crossing(chi, a, b, c, d):
    return chi(a, b, c) * chi(a, b, d) < 0 and chi(c, d, a) * chi(c, d, b) < 0


def simple(chi, n):
    e = [(i, (i + 1) % n) for i in range(n)]
    for x, y in itertools.combinations(range(n), 2):
        if (y - x) % n in (1, n - 1):
            continue
        if crossing(chi, *e[x], *e[y]):
            return False
    return True


def inside(chi, t, p):
    a, b, c = t
    return chi(a, b, p) > 0 and chi(b, c, p) > 0 and chi(c, a, p) > 0


def sense(chi, n):
    """+1 for a counter-clockwise ring: a hull vertex turns that way"""
    for i in range(n):
        others = [k for k in range(n) if k != i]
        # i is on the hull if all others lie in a half plane through it
        for j in others:
            r = [chi(i, j, k) for k in others if k != j]
            if all(x > 0 for x in r) or all(x < 0 for x in r):
                return chi((i - 1) % n, i, (i + 1) % n)
    raise AssertionError


def polygons(n):
    out = []
    for s in systems(n):
        chi = Chi(n, s)
        if simple(chi, n) and sense(chi, n) > 0:
            out.append(chi)
    return out


# ------------------------------------------------------------------ classes as facts about symbolic points
def load(name):
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', name)) as f:
        return json.load(f)


def classes(n):
    T = list(itertools.combinations(range(n), 3))
    data = load('polygons.json')
    return [Chi(n, {t: {'+': 1, '-': -1, '0': 0}[c] for t, c in zip(T, s)}) for s in data[str(n)]]


def monic(p):
    k = p[0][1]
    return T_.pscale(p, Fraction(1) / k), (1 if k > 0 else -1)


class Points:
    """n points of unknown coordinates; `chi`, when set, tells the orientation of every triple"""

    def __init__(self, n):
        self.P = [vec(num('x%d' % i), num('y%d' % i)) for i in range(n)]
        self.seq = cat(*[unit(p) for p in self.P])
        self.chi = None
        self.table = {}
        for i, j, k in itertools.combinations(range(n), 3):
            d = self.det(i, j, k)
            m, s = monic(d.args[0])
            self.table[m] = (i, j, k, s)
        T_.sign_hooks.append(self.sign)
        T_.near_hooks.append(self.near)

    def det(self, i, j, k):
        a, b, c = self.P[i], self.P[j], self.P[k]
        ab, ac = vsub(b, a), vsub(c, a)
        return sub(mul(ab.args[1], ac.args[2]), mul(ab.args[2], ac.args[1]))

    def sign(self, p):
        if self.chi is None or not p:
            return None
        m, s = monic(p)
        r = self.table.get(m)
        return None if r is None else self.chi(*r[:3]) * r[3] * s

    def near(self, tag, x):
        s = self.sign(x.args[0]) if x.op == 'rat' and not x.args[1] else None
        return None if s is None else (TRUE if s == 0 else FALSE)


def tiles(chi, n, ring, vs):
    """why the triangles vs (a flat list) do not tile the polygon `ring`; None when they do: all are
    counter-clockwise and their edges, beside those of the ring, cancel in pairs.  (Every point is then covered
    by as many triangles as the ring winds around it.)"""
    if len(vs) % 3:
        return '%d indices' % len(vs)
    e = {}

    def edge(a, b, k):
        if chi.at:
            way = split(chi, a, b)
            for x, y in zip(way, way[1:]):
                one(x, y, k)
        else:
            one(a, b, k)

    def one(a, b, k):
        if a > b:
            a, b, k = b, a, -k
        e[a, b] = e.get((a, b), 0) + k
    for a, b, c in zip(vs[::3], vs[1::3], vs[2::3]):
        if not all(v == int(v) and 0 <= v < n for v in (a, b, c)):
            return 'an index of %s is not that of a point' % ((a, b, c),)
        if chi(a, b, c) <= 0:
            return 'triangle %s is not counter-clockwise' % ((a, b, c),)
        for x, y in ((a, b), (b, c), (c, a)):
            edge(x, y, 1)
    for x, y in zip(ring, ring[1:] + ring[:1]):
        edge(x, y, -1)
    bad = sorted(k for k, v in e.items() if v)
    if bad:
        return 'the triangles do not fill the polygon: edges %s stay open' % bad[:4]
    return None


def det(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def flat_classes(n):
    """classes with collinear triples, with points of a lattice that realise them: every one of 4 and 5
    points, those of the 4 x 4 lattice of 6 points"""
    return lattice('flat.json', n)


def lattice(name, n):
    out = []
    for P in load(name)[str(n)]:
        chi = Chi(n, {t: (lambda d: (d > 0) - (d < 0))(det(*[P[i] for i in t])) for t in itertools.combinations(range(n), 3)})
        chi.at = P
        out.append(chi)
    return out


def split(chi, a, b):
    """the points on the way from a to b"""
    P = chi.at
    on = [k for k in range(chi.n) if k not in (a, b) and chi(a, b, k) == 0 and
          (P[k][0] - P[a][0]) * (P[k][0] - P[b][0]) + (P[k][1] - P[a][1]) * (P[k][1] - P[b][1]) < 0]
    on.sort(key=lambda k: (P[k][0] - P[a][0]) ** 2 + (P[k][1] - P[a][1]) ** 2)
    return [a] + on + [b]


def name_of(chi):
    return 'orientations ' + ''.join('+-'[v < 0] if v else '0' for k, v in sorted(chi.s.items()))


def sweep(ck, name, todo, run, want):
    """decide one obligation for a list of classes: (class, ring) -> the index list computed"""
    odd = []
    for k, (chi, ring) in enumerate(todo):
        try:
            vs = run(chi, ring)
        except Unsupported:
            vs = None
        if vs is None and getattr(chi, 'at', None):     # points that realise the class may still tell
            vs = run(chi, ring, cat(*[unit(vec(*map(const, p))) for p in chi.at]))
            if vs is not None and not want(chi, ring, vs):
                vs = None
        if vs is None:
            odd.append(chi)
            continue
        why = want(chi, ring, vs)
        if why:
            ck.violate(name, '%s, ring %s: %s' % (name_of(chi), ring, why))
            return
    if odd:
        ck.record(name, 'undecided', '%d of %d classes not decided, e.g. %s' % (len(odd), len(todo), name_of(odd[0])))
    else:
        ck.record(name, 'proved', 'in each of %d orientation classes' % len(todo))


def p_polygons(ck):
    def ears(kind, n, part, parts_):
        name = '%s-%d/%d' % (kind, n, part)

        def go():
            X = Points(n)

            def run(chi, ring, at=None):
                X.chi = chi
                P = at or X.seq
                r, _ = ck.run(U + 'compute_vertex_convexity', [rv(P)], unroll=40, splits=20)
                q, _ = ck.run(U + 'trianglate_polygon', [rv(P), r.args[1], r.args[2]], unroll=400, splits=20)
                return models.constants(q)
            todo = source(kind, n)
            sweep(ck, name, [(c, list(range(n))) for c in todo[part::parts_]], run, lambda chi, ring, vs: tiles(chi, n, ring, vs))
        ck.oblige(name, go, U + 'trianglate_polygon')

    def source(kind, n):
        if kind == 'ears':
            return classes(n)
        if kind == 'flat':
            return flat_classes(n)
        return lattice('sampled.json', n)[:None if ck.tier == 'thorough' else 400]
    for kind, n, k in (('ears', 4, 1), ('ears', 5, 1), ('ears', 6, 16), ('flat', 4, 1), ('flat', 5, 2), ('flat', 6, 32), ('sampled', 7, 8), ('sampled', 8, 8)):
        for i in range(k):
            ears(kind, n, i, k)

    # ---- predicates
    def ccw():
        at_least('P', 1)
        P = base(sym('P'), shape(v2('s')))
        r, _ = ck.run(U + 'is_polygon_counter_clockwise', [rv(P)])
        n = length(P)
        f = lambda i, j: mul(sub(get(P, j).args[1], get(P, i).args[1]), add(get(P, i).args[2], get(P, j).args[2]))
        s = add(sum_(sub(n, ONE), lambda i: f(i, add(i, ONE))), f(sub(n, ONE), ZERO))
        ck.equal('counter-clockwise', r, real_lt(s, ZERO), strict_panic=True, over=lambda rng: {sym('P'): pts(rng, rng.randint(1, 6), 2)})
    ck.oblige('counter-clockwise', ccw, U + 'is_polygon_counter_clockwise')

    def close(x):
        return T_.near(x, const(Fraction(1, 10 ** 7)))

    def turn(a, b, c):
        u, v = vsub(b, a), vsub(c, b)
        return sub(mul(u.args[1], v.args[2]), mul(u.args[2], v.args[1]))

    def corners():
        at_least('P', 1)
        P = base(sym('P'), shape(v2('s')))
        r, _ = ck.run(U + 'compute_vertex_convexity', [rv(P)])
        n = length(P)
        mod = lambda i: T_.divmod_t(i, n)[1]
        t = lambda i: turn(get(P, mod(sub(add(n, i), ONE))), get(P, i), get(P, mod(add(i, ONE))))
        kept = flat(n, lambda i: ite(close(t(i)), NIL, unit(i)))
        conc = flat(n, lambda i: ite(close(t(i)), NIL, ite(real_lt(ZERO, t(i)), NIL, unit(i))))
        ov = lambda rng: {sym('P'): pts(rng, rng.randint(1, 6), 2)}
        ck.equal('corners/kept', field(r, 0), kept, strict_panic=True, over=ov)
        ck.equal('corners/concave', field(r, 1), conc, strict_panic=True, over=ov)
    ck.oblige('corners', corners, U + 'compute_vertex_convexity')

    def within():
        a, b, c, p = [v2(x) for x in 'abcp']
        r, _ = ck.run('<glam::DVec2 as utils::point::Point>::is_inside_triangle', [rv(p), a, b, c])

        def left(x, y):
            d = turn(p, x, y)
            return models.b_or(real_le(ZERO, d), close(d))
        d3 = lambda x, y: left(x, y)
        want = models.b_and(models.b_and(d3(a, b), d3(b, c)), d3(c, a))
        def over(rng):
            d = {sym(x): pt(rng, 2) for x in 'abcp'}
            if rng.random() < 0.5:      # next to an edge, inside the others
                o = rng.choice(['abc', 'bca', 'cab'])
                (ax, ay), (bx, by) = [d[sym(x)][2:] for x in o[:2]]
                t = Fraction(rng.randint(1, 9), 10)
                ex, ey = bx - ax, by - ay
                k = ex * ex + ey * ey
                if k:
                    # perp_dot(p - a, b - a) is the given product
                    w = Fraction(rng.choice([-30, -3, 3, 30, 300, -300]), 10 ** 8) / k
                    d[sym('p')] = ('agg', 'vec', ax + t * ex - w * ey, ay + t * ey + w * ex)
            return d
        ck.equal('inside-triangle', r, want, strict_panic=True, over=over, trials=200)
    ck.oblige('inside-triangle', within, 'utils::point::Point::is_inside_triangle')

    # ---- corners of a ring of indices, bridged ones included
    def rings():
        rng = random.Random(4)
        for n in (4, 5):
            X = Points(n)
            todo = []
            for chi in lattice('flat.json', n) + classes(n):
                for _ in range(2):
                    ring = [rng.randrange(n) for _ in range(rng.randint(3, 7))] if rng.random() < 0.5 else rng.sample(range(n), rng.randint(3, n))
                    todo.append((chi, ring))
            X.chi = None

            def run(chi, ring, at=None):
                X.chi = chi
                R, st = ck.run(U + 'find_concave_vertices', [rv(at or X.seq), mk('ref', 'C', ())], st={'C': cat(*[unit(const(i)) for i in ring])}, unroll=40, splits=20)
                a, b = models.constants(R), models.constants(st['C'])
                return None if a is None or b is None else (a, b)

            def want(chi, ring, got):
                t = [chi(ring[i - 1], ring[i], ring[(i + 1) % len(ring)]) for i in range(len(ring))]
                w = sorted(v for v, k in zip(ring, t) if k < 0), [v for v, k in zip(ring, t) if k]
                return None if list(got[0]) == w[0] and list(got[1]) == w[1] else 'corners %s, of them concave %s, are required, not %s, %s' % (w[1], w[0], got[1], got[0])
            sweep(ck, 'rings-%d' % n, todo, run, want)
            T_.sign_hooks.remove(X.sign)
            T_.near_hooks.remove(X.near)
    ck.oblige('rings', rings, U + 'find_concave_vertices')
