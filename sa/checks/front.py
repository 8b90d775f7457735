"""Polygons with holes and the advancing front: which edges the results are made of."""
import os
import random
from fractions import Fraction

import models
from framework import *
from checks.geom import field
from checks.poly import U

SEG = '<glam::DVec2 as utils::point::Point>::distance_to_line_segment'
M = 'utils::meshgen::'


class Ranks:
    """points whose x coordinates and distances from segments are unknown but for their order"""

    def __init__(self, n):
        self.n = n
        self.P = [vec(num('x%d' % i), num('y%d' % i)) for i in range(n)]
        self.seq = cat(*[unit(p) for p in self.P])
        self.xs = {sym('x%d' % i): i for i in range(n)}
        self.order = None
        T_.sign_hooks.append(self.sign)
        T_.near_hooks.append(lambda tag, x: None if self.order is None or x.op != 'rat' or x.args[1] or self.sign(x.args[0]) is None else (TRUE if self.sign(x.args[0]) == 0 else FALSE))

    def hook(self, ip, args, st, dty):
        return self.dist(*[ip.snap(st, a) for a in args])

    def dist(self, p, a, b):
        return atom(mk('app', 'dist', p, a, b))

    def rank(self, t):
        """(kind, place) of a quantity whose order is known"""
        if t in self.xs:
            return 'x', self.order[self.xs[t]]
        if t.op == 'app' and t.args[0] == 'dist':
            ks = [self.P.index(a) for a in t.args[1:]]
            return 'd', E_.h64(self.seed, *ks) % self.ties
        if t is T_.as_atom(models.FMAX):
            return 'm', 10 ** 9
        return None

    def sign(self, p):
        p = [(m, c) for m, c in p if m or abs(c) > Fraction(1, 10 ** 12)] if len(p) == 2 else p
        if self.order is None or len(p) not in (1, 2) or any(len(m) != 1 or m[0][1] != 1 for m, c in p):
            return None
        r = [(self.rank(m[0][0]), c) for m, c in p]
        if any(x is None for x, c in r):
            return None
        if len(p) == 1:
            (k, v), c = r[0]
            return (1 if (v > self.zero) == (c > 0) else -1) if k == 'x' else (1 if c > 0 else -1)
        (a, c), (b, d) = r
        if 'm' in (a[0], b[0]):
            # the greatest of all numbers decides
            return (1 if c > 0 else -1) if a[0] == 'm' else (1 if d > 0 else -1)
        if a[0] != b[0] or c != -d:
            return None
        s = (a[1] > b[1]) - (a[1] < b[1])
        return s if c > 0 else -s


def joined(sizes, x, near):
    """the ring required: polygons by falling greatest x, each behind the start of the edge nearest to its
    (first) point of greatest x, from there around to it again and back to the start of that edge"""
    at, groups = 0, []
    for s in sizes:
        i = max(range(at, at + s), key=lambda i: (x[i], -i))
        groups.append((x[i], len(groups), at, at + s, i))
        at += s
    groups.sort(key=lambda g: (g[0], g[1]))
    _, _, a, b, _ = groups.pop()
    ring = list(range(a, b))
    for _, _, a, b, i in reversed(groups):
        n = len(ring)
        k = min(range(n), key=lambda k: (near(i, ring[k], ring[(k + 1) % n]), k))
        ring[k + 1:k + 1] = list(range(i, b)) + list(range(a, i + 1)) + [ring[k]]
    return ring


def p_bridges(ck):
    def case(sizes, runs):
        name = 'join-' + '-'.join(map(str, sizes))

        def go():
            n = sum(sizes)
            X = Ranks(n)
            offs = [sum(sizes[:k]) for k in range(len(sizes) + 1)]
            rng = random.Random(n)
            odd = 0
            for k in range(runs):
                X.seed, X.ties = k, rng.choice([3, 8, 10 ** 6])
                X.order = [rng.randrange(rng.choice([3, 8, 100])) for _ in range(n)]
                X.zero = rng.choice([-1, 1, 4, 50, 100]) + 0.5
                r, _ = ck.run(U + 'merge_polygons', [rv(X.seq), rv(cat(*[unit(const(o)) for o in offs]))], hooks={SEG: X.hook}, unroll=200)
                got = models.constants(r)
                if got is None:
                    odd += 1
                    continue
                want = joined(sizes, X.order, lambda i, a, b: X.rank(T_.as_atom(X.dist(X.P[i], X.P[a], X.P[b])))[1])
                if list(got) != want:
                    ck.violate(name, 'x coordinates in order %s, nearest edges by %d: ring %s instead of %s' % (X.order, k, [int(g) for g in got], want))
                    return
            if odd:
                ck.record(name, 'undecided', '%d of %d classes not decided' % (odd, runs))
            else:
                ck.record(name, 'proved', 'in each of %d classes of orders' % runs)
        ck.oblige(name, go, U + 'merge_polygons')
    many = 1 if ck.tier == 'quick' else 6
    for sizes, runs in (((3,), 10), ((3, 3), 300), ((4, 3), 200), ((3, 4), 200), ((3, 3, 3), 200), ((5, 3, 4), 100), ((3, 3, 3, 3), 60)):
        case(sizes, runs * many)


# ------------------------------------------------------------------ advancing front
def perp(x, y):
    return sub(mul(x.args[1], y.args[2]), mul(x.args[2], y.args[1]))


INSIDE = '<glam::DVec2 as utils::point::Point>::is_inside_triangle'
FIND = M + 'find_intersection_with_front'


class Choices:
    """stands for the geometric choice of the next node: any node of the front may be answered.
    One object is one history of choices; some close loops of the front, so that histories end."""

    def __init__(self, seed, news, greedy):
        self.rng = random.Random(seed)
        self.news, self.greedy = news, greedy
        self.open = None

    def __call__(self, ip, args, st, dty):
        start, end = [T_.cval(ip.snap(st, a)) for a in args[:2]]
        sel = ip.snap(st, args[2])
        front = models.written_out(models.seq_of(ip.snap(st, args[3])))
        if start is None or end is None or front is None or sel.op != 'enum':
            raise Unsupported('a choice at an edge that is not known: %s %s %s %s' % (start, end, sel.op, T_.show(ip.snap(st, args[3]))[:300]))
        front = [tuple(int(T_.cval(x)) for x in e.args[1:]) for e in front]
        start, end = int(start), int(end)
        deg = {}
        for a, b in front + [(start, end)]:
            deg[a] = deg.get(a, 0) + 1
            deg[b] = deg.get(b, 0) - 1
        if any(deg.values()):
            self.open = (start, end, front)
        if sel.args[1] == 1:
            # looked again from the node selected: keep it, or change over to another
            if self.rng.random() < 0.8 or not self.nodes(front, start, end):
                return none()
            return some(const(self.rng.choice(self.nodes(front, start, end))))
        nodes = self.nodes(front, start, end)
        if not nodes or (self.news and self.rng.random() < 0.4):
            self.news -= 1
            return none()
        if self.rng.random() < self.greedy:
            # nodes that take edges out of the front
            best = [n for n in nodes if (n, start) in front and (end, n) in front] or [n for n in nodes if (n, start) in front or (end, n) in front] or nodes
            return some(const(self.rng.choice(best)))
        return some(const(self.rng.choice(nodes)))

    def nodes(self, front, start, end):
        return sorted({a for e in front for a in e} - {start, end})


class Outcomes:
    """one history of outcomes of the geometric predicates: anything may lie anywhere, for so many questions"""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.left = self.rng.choice([6, 20, 60, 200])
        self.pts, self.tips = {}, set()
        self.often = self.rng.choice([0.1, 0.3, 0.6])
        self.kinds = self.rng.choice([2, 5, 1000])

    def yes(self, p):
        """once the questions are used up: whatever is near the tip of an edge, nothing near a node chosen"""
        self.left -= 1
        if self.left < 0:
            return TRUE if p in self.tips else FALSE
        return TRUE if self.rng.random() < self.often else FALSE

    def inside(self, ip, args, st, dty):
        return self.yes(ip.snap(st, args[3]))

    def crosses(self, ip, args, st, dty):
        return self.yes(ip.snap(st, args[1]))

    def tip(self, ip, args, st, dty):
        k = tuple(ip.snap(st, a) for a in args)
        if k not in self.pts:
            i = len(self.pts)
            self.pts[k] = vec(num('p%d' % i), num('q%d' % i))
            if T_.cval(k[2]) == 1:
                self.tips.add(self.pts[k])
        return self.pts[k]

    def score(self, ip, args, st, dty):
        a, b, c = [ip.snap(st, x) for x in args]
        if c is a or c is b:
            return ZERO
        return const(Fraction(self.rng.randrange(self.kinds) + 1, 2 * self.kinds))

    def hooks(self):
        return {INSIDE: self.inside, M + 'is_segments_intersect': self.crosses, M + 'point_on_normal_bisector': self.tip, M + 'shape_factor': self.score}


def p_front(ck):
    def case(sizes, runs, free=False):
        name = ('outcomes-' if free else 'front-') + '-'.join(map(str, sizes))

        def go():
            n = sum(sizes)
            P = [vec(num('x%d' % i), num('y%d' % i)) for i in range(n)]
            S = cat(*[unit(p) for p in P])
            offs = [sum(sizes[:k]) for k in range(len(sizes) + 1)]
            odd = done = 0
            broken = None
            cls = [0]
            T_.sign_hooks.append(lambda p: long_or_short(p, cls[0]))
            for k in range(runs):
                cls[0] = k
                oc = Outcomes(k)
                ch = Choices(k, k % 4, 0.9 if k % 3 else 0.6)
                try:
                    r, _ = ck.run(M + 'generate_triangular_mesh', [rv(S), rv(cat(*[unit(const(o)) for o in offs]))], hooks=oc.hooks() if free else {FIND: ch}, unroll=40)
                except Unsupported as e:
                    if 'rounds' not in str(e):
                        raise
                    broken = broken or ch.open
                    if odd >= 20 and broken and not done:
                        break
                    odd += 1        # a history that does not end in so many rounds
                    continue
                vs = models.written_out(field(r, 0))
                ts = models.constants(field(r, 1))
                if vs is None or ts is None:
                    raise Unsupported('the mesh of a history of choices is not known: ' + T_.show(r)[:600])
                why = closed(n, offs, P, vs, [int(t) for t in ts], free)
                if why:
                    ck.violate(name, 'history of choices %d: %s' % (k, why))
                    return
                done += 1
            if not done and broken:
                ck.violate(name, 'none of %d histories ends: with edge %s taken the front is %s, which is not closed' % (odd, broken[:2], broken[2][:8]))
            elif not done or soft:
                ck.record(name, 'consistent' if done else 'undecided', '%d histories of choices ended' % done)
            else:
                ck.record(name, 'proved', 'in each of %d histories of choices' % done)
                print(name, done, odd) if os.environ.get('SA_DEBUG') else None
        ck.oblige(name, go, M + 'generate_triangular_mesh')

    ids, soft = {}, []

    def long_or_short(p, k):
        """edges are longer or shorter than the least size, by the class"""
        if len(p) != 2:
            return None
        (m, c), (m2, d) = sorted(p, key=lambda x: len(x[0]))
        if m or len(m2) != 1 or m2[0][1] != 1 or c * d > 0 or m2[0][0].op != 'fn' or m2[0][0].args[0] != 'sqrt':
            return None
        long = k % 5 or E_.h64(k, ids.setdefault(m2[0][0], len(ids))) % 3
        return (1 if d > 0 else -1) * (1 if long else -1)

    def closed(n, offs, P, vs, ts, free):
        if len(vs) < n or any(a is not b for a, b in zip(vs, P)):
            return 'the points given are not the first of the mesh'
        if len(ts) % 3 or any(not 0 <= t < len(vs) for t in ts):
            return 'triangles %s of %d points' % (ts, len(vs))
        e = {}

        def edge(a, b, k):
            if a > b:
                a, b, k = b, a, -k
            e[a, b] = e.get((a, b), 0) + k
        new = n
        for a, b, c in zip(ts[::3], ts[1::3], ts[2::3]):
            if len({a, b, c}) < 3:
                return 'triangle %s' % ((a, b, c),)
            if c == new:
                if not free and not tip(vs[c], vs[a], vs[b]):
                    return 'point %d over edge %s is not the apex of its equilateral triangle' % (c, (a, b))
                new += 1
            for x, y in ((a, b), (b, c), (c, a)):
                edge(x, y, 1)
        if new != len(vs):
            return '%d points are added, %d of them as apex of a triangle in the order of the triangles' % (len(vs) - n, new - n)
        for a, b in zip(offs, offs[1:]):
            for i in range(a, b):
                edge(i, i + 1 if i + 1 < b else a, -1)
        bad = sorted(k for k, v in e.items() if v)
        return 'edges %s do not cancel' % bad[:5] if bad else None

    def tip(p, a, b):
        """p is the tip over the edge: the height written as any float next to the square root of three quarters"""
        for h in (Fraction(repr(1.7320508075689 / 2)), Fraction(repr(3 ** 0.5 / 2)), None):
            w = apex(a, b, mul(const(Fraction(1, 2)), sqrt(const(3))) if h is None else const(h))
            if p is w or same_within(p, w, 5):
                return True
        soft.append(p)
        return not ck.separate(p, w, {}, None, False, 20, 5)[0]

    def apex(a, b, h):
        half = const(Fraction(1, 2))
        c = vscale(half, vadd(a, b))
        d = vsub(b, a)
        l = norm_(d)
        d = vec(neg(d.args[2]), d.args[1])
        short = vscale(mul(const(Fraction(1, 100)), T_.inv(l)), d)
        k = real_lt(l, const(Fraction(1, 1000)))
        return vadd(c, vscale(h, vec(*[ite(k, x, y) for x, y in zip(short.args[1:], d.args[1:])])))
    def segments():
        """two segments have a point in common: boxes overlap and neither lies on one side of the other's line"""
        if not ck.has(M + 'is_segments_intersect'):
            raise Skip('is_segments_intersect')
        a, b, c, d = [v2(x) for x in 'abcd']
        r, _ = ck.run(M + 'is_segments_intersect', [a, b, c, d])

        def turn(p, q, r):
            return perp(vsub(q, p), vsub(r, p))

        def low(x, y):
            return ite(real_lt(y, x), y, x)

        def high(x, y):
            return ite(real_lt(x, y), y, x)
        w = TRUE
        for i in (1, 2):
            x, y, z, t = [p.args[i] for p in (a, b, c, d)]
            w = models.b_and(w, models.b_and(real_le(low(x, y), high(z, t)), real_le(low(z, t), high(x, y))))
        w = models.b_and(w, models.b_and(real_le(mul(turn(c, d, a), turn(c, d, b)), ZERO), real_le(mul(turn(a, b, c), turn(a, b, d)), ZERO)))

        def over(rng):
            P = [[Fraction(rng.randint(-4, 4)) for _ in range(2)] for _ in range(4)]
            if rng.random() < 0.3:
                t = Fraction(rng.randint(0, 4), 2)
                P[2] = [x + t * (y - x) for x, y in zip(P[0], P[1])]
            if rng.random() < 0.3:
                t = Fraction(rng.randint(-4, 4), 2)
                P[3] = [x + t * (y - x) for x, y in zip(P[0], P[1])]
            return {sym(n): ('agg', 'vec', *p) for n, p in zip('abcd', P)}
        ck.equal('segments-meet', r, w, over=over, trials=4000)
    ck.oblige('segments-meet', segments, M + 'is_segments_intersect')

    def shape_():
        if not ck.has(M + 'shape_factor'):
            raise Skip('shape_factor')
        a, b, c = [v2(x) for x in 'abc']
        r, _ = ck.run(M + 'shape_factor', [a, b, c])
        e = [vsub(b, a), vsub(c, a), vsub(c, b)]
        ck.equal('shape', r, div(perp(e[0], e[1]), add(*[dot(x, x) for x in e])))
    ck.oblige('shape', shape_, M + 'shape_factor')
    many = 1 if ck.tier == 'quick' else 8
    for sizes, runs in (((3,), 100), ((4,), 300), ((5,), 300), ((3, 3), 200), ((6, 3), 100)):
        case(sizes, runs * many)
        case(sizes, runs * many, True)
