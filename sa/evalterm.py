"""Random interpretation of value graphs (after Gulwani and Necula).

Two value graphs whose normal forms differ are interpreted over randomly chosen
assignments of their symbols; uninterpreted symbols become smooth random functions
of their arguments.  The outcome only ever serves to *withhold* an alarm: graphs
that cannot be told apart are reported as undecided, never as violations.
"""
import math
import random
import struct
from fractions import Fraction

import term as T_
from term import T, atom, const, ZERO

M64 = (1 << 64) - 1


class Undef(Exception):
    """value undefined (panicking path, division by zero, out of range read)"""


class Panic(Undef):
    pass


class NoEval(Exception):
    """construct that has no interpretation"""


def h64(*xs):
    h = 0x9E3779B97F4A7C15
    for x in xs:
        if isinstance(x, str):
            v = T_.hstr(x) & M64 if not x == '' else 7
        else:
            v = int(x) & M64
        h ^= v
        h = (h * 0xBF58476D1CE4E5B9) & M64
        h ^= h >> 29
        h = (h * 0x94D049BB133111EB) & M64
        h ^= h >> 32
    return h


def u01(h):
    return (h >> 11) / float(1 << 53)


class Obj:
    """uninterpreted value: identified by a hash and the numbers it depends on"""
    __slots__ = ('h', 'nums')

    def __init__(self, h, nums=()):
        self.h = h
        self.nums = nums

    def sub(self, *k):
        return Obj(h64(self.h, *k), self.nums)

    def scalar(self):
        s = 0.0
        h = self.h
        for i, x in enumerate(self.nums):
            w = 0.7 + 1.6 * u01(h64(h, i, 1))
            p = 6.28 * u01(h64(h, i, 2))
            s += math.sin(w * x + p)
        return 2.0 * u01(h64(h, 3)) - 1.0 + s if self.nums else 4.0 * u01(h64(h, 3)) - 2.0

    def truth(self):
        return self.scalar() > 0.0 if self.nums else bool(h64(self.h, 4) & 1)

    def __repr__(self):
        return 'Obj(%x,%s)' % (self.h & 0xffff, ','.join('%.4g' % x for x in self.nums))


def flatten(v, tags, nums):
    if isinstance(v, bool):
        tags.append(2 if v else 3)
    elif isinstance(v, (int, float, Fraction)):
        tags.append(5)
        nums.append(float(v))
    elif isinstance(v, Obj):
        tags.append(v.h)
        nums.extend(v.nums)
    elif isinstance(v, str):
        tags.append(h64(v))
    elif isinstance(v, list):
        tags.append(11)
        tags.append(len(v))
        for x in v:
            flatten(x, tags, nums)
    elif isinstance(v, tuple):
        tags.append(13)
        for x in v:
            flatten(x, tags, nums)
    elif v is None:
        tags.append(17)
    elif isinstance(v, T):
        tags.append(v.h)
    else:
        raise NoEval('flatten %r' % (v,))


def norm(x):
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 else x
    return x


def is_str(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == 'str'


def pat(p):
    """the alternatives of a text pattern"""
    if is_str(p):
        return [p[1]]
    if isinstance(p, list):
        p = mergelits(p)
        if len(p) == 1 and p[0][0] == 'lit':
            return [p[0][1]]
    if isinstance(p, tuple) and p[0] == 'agg' and p[1] == 'chars':
        return [pat(x)[0] for x in p[2:]]
    raise NoEval('pattern %r' % (p,))


def t_split(s, p):
    out, cur, i = [], '', 0
    ps = pat(p)
    s = s[1]
    while i < len(s):
        for q in ps:
            if q and s.startswith(q, i):
                out.append(('str', cur))
                cur = ''
                i += len(q)
                break
        else:
            cur += s[i]
            i += 1
    return out + [('str', cur)]


def t_lines(s):
    ls = s[1].split('\n')
    if ls and ls[-1] == '':
        ls.pop()
    return [('str', x[:-1] if x.endswith('\r') else x) for x in ls]


def t_float(s):
    import re
    s = s[1]
    if re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', s):
        return ('enum', 'std::result::Result', 0, float(s))
    return ('enum', 'std::result::Result', 1, ('err',))


TEXT = {
    'split': t_split,
    'lines': t_lines,
    'split_whitespace': lambda s: [('str', x) for x in s[1].split()],
    'trim': lambda s: ('str', s[1].strip()),
    'trim_start': lambda s: ('str', s[1].lstrip()),
    'trim_end': lambda s: ('str', s[1].rstrip()),
    'starts_with': lambda s, p: any(s[1].startswith(q) for q in pat(p)),
    'ends_with': lambda s, p: any(s[1].endswith(q) for q in pat(p)),
    'contains': lambda s, p: any(q in s[1] for q in pat(p)),
    'parse:f64': t_float,
    'unreadable': lambda s: '\x00' in s[1],      # stands for bytes that are no text
}
TEXT['split_ascii_whitespace'] = TEXT['split_whitespace']

RELATIONS = {'dedup', 'dedupkey', 'sort', 'sortkey'}


class Grid(random.Random):
    """source of inputs on which comparisons meet their limits: multiples of 1/2 ('grid'), and such
    numbers with a tiny or huge part added ('scale')"""
    mode = 'grid'

    def uniform(self, a, b):
        lo, hi = math.ceil(2 * a), math.floor(2 * b)
        x = Fraction(self.randint(lo, hi), 2) if lo <= hi else Fraction((a + b) / 2)
        if self.mode == 'scale' and self.random() < 0.5:
            t = Fraction(self.choice([-3, -1, 1, 2]), 10 ** self.randint(2, 10))
            if a <= x + t <= b:
                x += t
        return x


def gap(rng):
    """a small non-negative difference, sometimes 0"""
    g = rng.choice([0, 0, 0.5, 1, 1.25])
    if getattr(rng, 'mode', None) == 'scale' and rng.random() < 0.4:
        g = Fraction(rng.randint(1, 9), 10 ** rng.randint(2, 10))
    return g


def ratio(a, b):
    return a / b if isinstance(a, float) or isinstance(b, float) else Fraction(a) / Fraction(b)


def exact(v):
    """the same input in exact numbers"""
    if isinstance(v, float) and v == v and abs(v) < 1e18:
        return norm(Fraction(v))
    if isinstance(v, list):
        return [exact(x) for x in v]
    if isinstance(v, tuple) and not is_str(v):
        return tuple(exact(x) for x in v)
    return v


def root(x):
    """exact square root, or None"""
    x = Fraction(x)
    if x < 0:
        return None
    a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if a * a == x.numerator and b * b == x.denominator:
        return norm(Fraction(a, b))
    return None


_fbv = {}


def fbv(t):
    """bound variables that occur free in t"""
    r = _fbv.get(t)
    if r is None:
        if t.op == 'bv':
            r = (t,)
        else:
            ch = []
            for a in t.args:
                T_._child(a, ch)
            s = set()
            for c in ch:
                s.update(fbv(c))
            if t.op == 'lam':
                s.difference_update(t.args[0])
            r = tuple(sorted(s, key=lambda b: b.args))
        _fbv[t] = r
    return r


class Env:
    def __init__(self, seed=0, over=None, maxlen=5, unfold=None, mode=None, near=None):
        self.near = near
        self.seed = seed
        self.mode = mode
        self.over = dict(over or {})
        if mode:
            self.over = {k: exact(v) for k, v in self.over.items()}
        self.maxlen = maxlen
        self.unfold = unfold or {}     # app name -> function(list of values) -> value
        self.bv = {}
        self.memo = {}
        self.steps = 0
        self.budget = 4000000 if near else 400000
        self.lens = {}

    # -- uninterpreted
    def obj(self, name, vals):
        tags, nums = [], []
        for v in vals:
            flatten(v, tags, nums)
        return Obj(h64(self.seed, name, *tags), tuple(nums))

    def scalar(self, v):
        if isinstance(v, Obj):
            if self.mode and not v.nums:
                x = norm(Fraction(h64(v.h, 3) % 9 - 4, 2))
                if self.mode == 'scale' and h64(v.h, 5) % 2:
                    x = norm(x + Fraction(h64(v.h, 6) % 7 - 3, 10 ** (2 + h64(v.h, 7) % 9)))
                return x
            return v.scalar()
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float, Fraction)):
            return v
        if isinstance(v, T) and v.op == 'sym':
            return self.obj('sym', [str(v.args[0])]).scalar()
        raise NoEval('scalar %r' % (v,))

    def length_of(self, v):
        if isinstance(v, list):
            return len(v)
        if is_str(v):
            return len(v[1].encode())
        if isinstance(v, Obj):
            if self.near:
                return h64(v.h, 'len') % 6 if h64(v.h, 'near') % 3 else max(0, self.near - 2 + h64(v.h, 'len') % 5)
            return h64(v.h, 'len') % (self.maxlen + 1)
        raise NoEval('length of %r' % (v,))

    def atomv(self, t):
        """value of an atom used as a number"""
        v = self.ev(t)
        if isinstance(v, Obj):
            if t in T_.facts.nonneg or t in T_.facts.pos or t in T_.facts.lo or t in T_.facts.hi:
                return self.bounded(t, v)
        return self.scalar(v)

    def bounded(self, t, v):
        lo, hi = T_.facts.lo.get(t), T_.facts.hi.get(t)
        if t in T_.facts.pos and t not in T_.facts.ints and lo is None and hi is None:
            return abs(self.scalar(v)) + Fraction(1, 4)
        a = math.ceil(self.ev(lo) - 1e-9) if lo is not None else 0
        b = math.floor(self.ev(hi) + 1e-9) if hi is not None else a + 3
        if b < a:
            raise Undef('empty range')
        if self.near and hi is None and h64(v.h, 'near') % 3 == 0:
            return max(a, self.near - 2 + h64(v.h, 'rng') % 5)
        return a + h64(v.h, 'rng', *[int(round(x * 64)) for x in v.nums]) % (b - a + 1)

    # -- evaluation
    def ev(self, t):
        if not isinstance(t, T):
            return t
        if t in self.over:
            return self.over[t]
        if t in self.bv:
            return self.bv[t]
        key = t
        if self.bv:
            for b in fbv(t):
                v = self.bv.get(b)
                if not isinstance(v, (int, Fraction, float)) or isinstance(v, bool):
                    key = None
                    break
                key = (key, v)
        if key is not None:
            r = self.memo.get(key, self)
            if r is not self:
                return r
        self.steps += 1
        if self.steps > self.budget:
            raise Undef('budget')
        m = getattr(self, 'e_' + t.op, None)
        if m is None:
            raise NoEval('op ' + t.op)
        r = m(t)
        if key is not None:
            self.memo[key] = r
        return r

    def e_rat(self, t):
        num, den = t.args
        cache = {}

        def at(a):
            v = cache.get(a)
            if v is None:
                v = cache[a] = self.atomv(a)
            return v

        def poly(p):
            s = 0
            big = 0.0
            for m, c in p:
                x = c
                for a, e in m:
                    av = at(a)
                    if isinstance(x, Fraction) and isinstance(av, float):
                        x = float(x)
                    elif isinstance(av, Fraction) and isinstance(x, float):
                        av = float(av)
                    x = x * av ** e
                if isinstance(s, float) or isinstance(x, float):
                    s = float(s) + float(x)
                else:
                    s = s + x
                big = max(big, abs(float(x)))
            if isinstance(s, float) and abs(s) < 1e-13 * big:
                s = 0.0
            return norm(s)
        n = poly(num)
        for f, e in den:
            d = poly(f)
            if d == 0 or (isinstance(d, float) and abs(d) < 1e-12):
                raise Undef('division by zero')
            for _ in range(e):
                if isinstance(n, float) or isinstance(d, float):
                    n = float(n) / float(d)
                else:
                    n = norm(Fraction(n) / Fraction(d))
        return n

    def e_sym(self, t):
        n = t.args[0]
        if n == 'pi':
            return math.pi
        if n == 'fmax':
            return 1e300
        if n == 'inf':
            return 10 ** 9
        if n == 'nan':
            return float('nan')
        return Obj(h64(self.seed, 'sym', str(n)))

    def e_fv(self, t):
        return Obj(h64(self.seed, 'fv', t.args[0]))

    def e_mu(self, t):
        return Obj(h64(self.seed, 'mu', t.args[0]))

    def e_bv(self, t):
        raise NoEval('free bound variable')

    def e_cst(self, t):
        return Obj(h64(self.seed, 'cst', str(t.args[0])))

    e_constbits = e_cst

    def e_fnitem(self, t):
        return Obj(h64(1, 'fnitem', str(t.args[0])))

    def e_tape(self, t):
        return self.sub1('tape', t)

    def e_gdata(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, Obj):
            return v.sub('gdata')
        if isinstance(v, tuple) and v[0] == 'agg':
            return v[2]
        raise NoEval('gdata')

    def sub1(self, name, t):
        v = self.ev(t.args[0])
        if isinstance(v, Obj):
            return v.sub(name)
        raise NoEval(name)

    def e_rows(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, Obj):
            return 2 + h64(v.h, 'rows') % 3
        if isinstance(v, tuple) and v[0] == 'agg':
            return v[3]
        raise NoEval('rows')

    def e_cols(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, Obj):
            return 2 + h64(v.h, 'cols') % 3
        if isinstance(v, tuple) and v[0] == 'agg':
            return v[4]
        raise NoEval('cols')

    def e_proj(self, t):
        v = self.ev(t.args[0])
        for i in t.args[1]:
            v = self.field(v, i)
        return v

    def field(self, v, i):
        if isinstance(v, Obj):
            return v.sub('f', int(i) + 1)
        if isinstance(v, tuple) and v[0] in ('agg',):
            return v[2 + i]
        if isinstance(v, tuple) and v[0] == 'pay':
            return v[1 + i]
        raise NoEval('field of %r' % (v,))

    def e_dc(self, t):
        v = self.ev(t.args[0])
        i = t.args[1]
        if isinstance(v, Obj):
            return v.sub('dc', int(i))
        if isinstance(v, tuple) and v[0] == 'enum':
            if v[2] != i:
                raise Panic('variant')
            return ('pay',) + v[3:]
        raise NoEval('dc')

    def e_idx(self, t):
        v = self.ev(t.args[0])
        i = self.ev(t.args[1])
        return self.index(v, i)

    def index(self, v, i):
        if isinstance(i, Obj):
            i = i.scalar()
        if isinstance(i, float):
            if abs(i - round(i)) < 1e-9:
                i = int(round(i))
        if isinstance(v, list):
            if not isinstance(i, int) or not 0 <= i < len(v):
                raise Panic('index %r of %d' % (i, len(v)))
            return v[i]
        if isinstance(v, Obj):
            if isinstance(i, int):
                return v.sub('idx', i)
            return Obj(h64(v.h, 'idx'), v.nums + (float(i),))
        raise NoEval('index of %r' % (v,))

    def e_len(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, Obj) and (t in T_.facts.lo or t in T_.facts.hi):
            return self.bounded(t, v.sub('len'))
        return self.length_of(v)

    def e_app(self, t):
        name = t.args[0]
        if name in RELATIONS and len(t.args) == 3 and isinstance(t.args[2], T) and t.args[2].op == 'lam':
            return self.relation(name, self.ev(t.args[1]), t.args[2])
        vals = [self.ev(a) for a in t.args[1:]]
        if name == 'dedupeq' and isinstance(vals[0], list):
            out = []
            for x in vals[0]:
                if not out or differs(x, out[-1], 0):
                    out.append(x)
            return out
        if name == 'split' and is_str(vals[0]) and callable(vals[1]):
            return t_split(vals[0], ('agg', 'chars') + tuple(('str', ch) for ch in sorted(set(vals[0][1])) if vals[1](ord(ch))))
        if name in TEXT and vals and is_str(vals[0]):
            return TEXT[name](*vals)
        if name == 'rand':
            return Obj(h64(self.seed, 'rand', *[int(x) if isinstance(x, (int, float)) else x.h for x in vals]))
        u = self.unfold.get(name)
        if u is not None:
            return u(self, vals)
        return self.obj('app:' + str(name), vals)

    def e_lam(self, t):
        return lambda *v: self.bind(t, list(v))

    def relation(self, name, xs, l):
        if not isinstance(xs, list):
            raise NoEval('relation on opaque list')
        f = lambda *v: self.bind(l, list(v))
        if name == 'dedup':
            out = []
            for x in xs:
                if not out or not f(x, out[-1]):
                    out.append(x)
            return out
        if name == 'dedupkey':
            out = []
            for x in xs:
                if not out or differs(f(x), f(out[-1]), 0):
                    out.append(x)
            return out

        def order(v):
            if isinstance(v, tuple) and v[0] == 'enum' and v[1].endswith('cmp::Ordering'):
                return v[2] - 1
            if isinstance(v, (int, float, Fraction)):
                return v
            raise NoEval('ordering %r' % (v,))
        import functools
        if name == 'sort':
            return sorted(xs, key=functools.cmp_to_key(lambda a, b: order(f(a, b))))
        if name == 'sortkey':
            return sorted(xs, key=lambda a: self.scalar(f(a)))
        raise NoEval(name)

    def e_fn(self, t):
        name = t.args[0]
        xs = [self.scalar(self.ev(a)) for a in t.args[1:]]
        fx = [float(x) for x in xs]
        if self.mode and all(isinstance(x, (int, Fraction)) for x in xs):
            x = xs[0]
            if name == 'sqrt':
                if x < 0:
                    raise Undef('sqrt')
                r = root(x)
                if r is not None:
                    return r
            elif name in ('abs', 'fabs'):
                return abs(x)
            elif name in ('floor', 'ceil', 'trunc'):
                return getattr(math, name)(x)
            elif name == 'atan2' and xs[0] == 0 and xs[1] > 0:
                return 0
            elif name in ('sin', 'tan') and x == 0:
                return 0
            elif name in ('cos', 'exp') and x == 0:
                return 1
        try:
            if name == 'sqrt':
                if fx[0] < 0:
                    if fx[0] > -1e-12:
                        return 0.0
                    raise Undef('sqrt')
                return math.sqrt(fx[0])
            if name in ('sin', 'cos', 'tan', 'exp', 'floor', 'ceil', 'fabs', 'asin', 'acos', 'atan', 'log', 'ln'):
                return getattr(math, 'log' if name == 'ln' else name)(fx[0])
            if name == 'abs':
                return abs(fx[0])
            if name == 'atan2':
                return math.atan2(fx[0], fx[1])
            if name == 'f32':
                return struct.unpack('<f', struct.pack('<f', fx[0]))[0] if abs(fx[0]) < 1e38 else fx[0]
            if name == 'trunc':
                return int(fx[0])
            if name == 'wrap16':
                # counts are not bounded: what is lost is shown at a small scale
                return fx[0] % 2
            if name == 'fmod':
                return math.fmod(fx[0], fx[1])
            if name == 'round':
                return math.floor(abs(fx[0]) + 0.5) * (1 if fx[0] >= 0 else -1)
            if name == 'powi' or name == 'powf':
                return fx[0] ** fx[1]
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Undef(name)
        return self.obj('fn:' + name, xs).scalar()

    def e_div(self, t):
        a, b = self.scalar(self.ev(t.args[0])), self.scalar(self.ev(t.args[1]))
        if b == 0:
            raise Panic('div')
        return int(math.floor(a / b)) if isinstance(a, float) or isinstance(b, float) else int(a // b)

    def e_mod(self, t):
        a, b = self.scalar(self.ev(t.args[0])), self.scalar(self.ev(t.args[1]))
        if b == 0:
            raise Panic('mod')
        return norm(a % b)

    # -- structure
    def e_agg(self, t):
        return ('agg', str(t.args[0])) + tuple(self.ev(x) for x in t.args[1:])

    def e_enum(self, t):
        return ('enum', t.args[0], t.args[1]) + tuple(self.ev(x) for x in t.args[2:])

    def e_rv(self, t):
        return self.ev(t.args[0])

    def e_ref(self, t):
        raise NoEval('ref')

    def e_uninit(self, t):
        raise Undef('uninit')

    def e_bot(self, t):
        raise Panic('bot')

    def e_true(self, t):
        return True

    def e_false(self, t):
        return False

    def like(self, sample, v):
        """value of elem_like(sample, .) with the identified value v"""
        if isinstance(v, (list, tuple, int, float, bool, Fraction)):
            return v
        op = sample.op
        if op == 'ite':
            return self.like(next(k for k in sample.args[1:] if k is not T_.BOT), v)
        if op == 'agg':
            return ('agg', str(sample.args[0])) + tuple(self.like(x, v.sub('f', i + 1)) for i, x in enumerate(sample.args[1:]))
        if op == 'rv':
            return self.like(sample.args[0], v)
        if op == 'rat':
            return v.scalar()
        if op in ('cat', 'unit', 'comp', 'flat', 'base', 'upd'):
            return self.seq_of(v, T_.elem_sample(sample))
        if op in ('true', 'false'):
            return v.truth()
        return v

    def seq_of(self, v, sample):
        if isinstance(v, list):
            return v
        if isinstance(v, Obj):
            n = self.length_of(v)
            return [self.like(sample, v.sub('idx', i)) for i in range(n)]
        raise NoEval('sequence from %r' % (v,))

    def e_base(self, t):
        v = self.ev(t.args[0])
        if t.args[1].op == 'shape' and t.args[1].args[0] == 'x' and (isinstance(v, Obj) or is_str(v)):
            return v          # an opaque text
        return self.seq_of(v, t.args[1])

    def e_unit(self, t):
        x = t.args[0]
        return [self.ev(x)]

    def e_lit(self, t):
        return ('lit', t.args[0])

    def e_fmt(self, t):
        v = self.ev(t.args[2])
        if t.args[0] == 'display' and t.args[1] == ():
            x = v.scalar() if isinstance(v, Obj) else v
            if isinstance(x, (int, float, Fraction)) and not isinstance(x, bool) and abs(x) < 1e15 and abs(x - round(x)) < 1e-12:
                return ('lit', str(round(x)))
        return ('fmt', str(t.args[0]), str(t.args[1]), v)

    def e_le(self, t):
        return ('le', str(t.args[0]), self.ev(t.args[1]))

    def e_bytes(self, t):
        return ('bytes',) + tuple(self.ev(a) if isinstance(a, T) else a for a in t.args)

    def e_seek(self, t):
        return ('seek', self.ev(t.args[0]))

    def e_cat(self, t):
        out = []
        for p in t.args:
            v = self.ev(p)
            if isinstance(v, Obj):
                v = [('text', v)]
            out.extend(v)
        return out

    def bind(self, l, vals):
        bvs, body = l.args
        save = [(b, self.bv.get(b, self)) for b in bvs]
        for b, v in zip(bvs, vals):
            self.bv[b] = v
        try:
            return self.ev(body)
        finally:
            for b, s in save:
                if s is self:
                    self.bv.pop(b, None)
                else:
                    self.bv[b] = s

    def count(self, t):
        n = self.scalar(self.ev(t))
        if isinstance(n, float):
            n = int(round(n))
        if n > 3000:
            raise Undef('long loop')
        return int(n)

    def e_comp(self, t):
        return [self.bind(t.args[1], [i]) for i in range(self.count(t.args[0]))]

    def e_flat(self, t):
        out = []
        for i in range(self.count(t.args[0])):
            v = self.bind(t.args[1], [i])
            if isinstance(v, Obj):
                v = [('text', v)]
            out.extend(v)
        return out

    def e_upd(self, t):
        s = list(self.ev(t.args[0]))
        i = self.scalar(self.ev(t.args[1]))
        if isinstance(i, float):
            i = int(round(i))
        if not 0 <= i < len(s):
            raise Panic('update out of range')
        s[int(i)] = self.ev(t.args[2])
        return s

    def e_sum(self, t):
        s = 0
        for i in range(self.count(t.args[0])):
            x = self.scalar(self.bind(t.args[1], [i]))
            s = s + x if not (isinstance(s, float) or isinstance(x, float)) else float(s) + float(x)
        return norm(s)

    def e_first(self, t):
        n = self.scalar(self.ev(t.args[0]))
        i = 0
        while i < n:
            if i > 3000:
                raise Undef('long search')
            if self.bind(t.args[1], [i]):
                return i
            i += 1
        return norm(n)

    def e_argmin(self, t):
        n = self.count(t.args[0])
        best = None
        bi = None
        for i in range(n):
            v = self.bind(t.args[1], [i])
            d, g = v[2], v[3]
            if g > 0:
                if best is None or d < best or (not t.args[2] and d <= best):
                    best, bi = d, i
        if bi is None:
            raise Undef('argmin of nothing')
        return bi

    def e_fold(self, t):
        n = self.count(t.args[0])
        key = ('fold', t.args[0], t.args[1], t.args[2])
        for b in fbv(t):
            v = self.bv.get(b)
            if not isinstance(v, (int, Fraction, float)) or isinstance(v, bool):
                key = None
                break
            key = (key, v)
        if key is not None and key in self.memo:
            return self.memo[key][t.args[3]]
        st = [self.ev(x) for x in t.args[1].args[1:]]
        for i in range(n):
            st = list(self.bind(t.args[2], [i] + st)[2:])
        if key is not None:
            self.memo[key] = st
        return st[t.args[3]]

    def side(self, t):
        """a number that is compared with 0; close to it, it has to be exact"""
        v = self.scalar(self.ev(t))
        if self.mode and isinstance(v, float) and abs(v) < 1e-7:
            raise Undef('borderline')
        return v

    def cond(self, c):
        op = c.op
        if op == 'c_pos':
            return 1 if self.side(c.args[0]) > 0 else 0
        if op == 'c_eq':
            return 1 if abs(self.side(c.args[0])) < 1e-12 else 0
        if op == 'c_sgn':
            v = self.side(c.args[0])
            if v != v:
                raise Undef('nan')
            return 2 if v > 0 else 0 if v < 0 else 1
        if op == 'c_is':
            v = self.ev(c.args[0])
            if isinstance(v, tuple) and v[0] == 'enum':
                return 1 if v[2] == c.args[1] else 0
            if isinstance(v, Obj):
                return 1 if h64(v.h, 'var') % 2 == c.args[1] % 2 else 0
            if v is None:
                return 1 if c.args[1] == 0 else 0
            raise NoEval('variant')
        if op == 'c_b':
            tag = c.args[0]
            if tag in ('near', 'ulps'):
                x, tol = abs(self.scalar(self.ev(c.args[1]))), max(self.scalar(self.ev(c.args[2])), Fraction(1, 10 ** 15))
                if self.mode and (isinstance(x, float) or isinstance(tol, float)) and (x < 1e-6 or abs(x - tol) < 1e-6):
                    raise Undef('borderline')
                return 1 if x <= tol else 0
            if tag == 'nan':
                v = float(self.scalar(self.ev(c.args[1])))
                return 1 if v != v else 0
            if tag == 'nanv':
                vs = [float(self.scalar(self.ev(a))) for a in c.args[1:]]
                return 1 if any(v != v for v in vs) else 0
            vals = [self.ev(a) for a in c.args[1:]]
            if tag == 'val':
                v = vals[0]
                if isinstance(v, bool):
                    return int(v)
                if isinstance(v, Obj):
                    return int(v.truth())
                raise NoEval('bool of %r' % (v,))
            if tag == 'same':
                return 0 if differs(vals[0], vals[1]) else 1
            if tag in TEXT and is_str(vals[0]):
                return int(TEXT[tag](*vals))
            return int(self.obj('b:' + str(tag), vals).truth())
        raise NoEval('cond ' + op)

    def e_ite(self, t):
        try:
            c = self.cond(t.args[0])
        except Panic:
            # condition not defined here (tests are ordered by the normal form, not by the program):
            # it has no say where all branches agree
            vs = [self.ev(x) for x in t.args[1:]]
            if any(differs(vs[0], v) for v in vs[1:]):
                raise
            return vs[0]
        return self.ev(t.args[1 + c])


def close(a, b, tol=1e-7):
    a, b = float(a), float(b)
    if a != a and b != b:
        return True
    if a != a or b != b:
        return False
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def mergelits(l):
    out = []
    for x in l:
        if isinstance(x, tuple) and x and x[0] == 'lit':
            if x[1] == '':
                continue
            if out and isinstance(out[-1], tuple) and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + x[1])
                continue
        out.append(x)
    return out


EXACT = 'exact'


def differs(a, b, tol=1e-7):
    """a description of the first difference, or None"""
    num = (int, float, Fraction)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.h != b.h or len(a.nums) != len(b.nums):
            return '%r / %r' % (a, b)
        for x, y in zip(a.nums, b.nums):
            if not close(x, y, 1e-7 if tol is EXACT else tol):
                return '%r / %r' % (a, b)
        return None
    if isinstance(a, Obj) and isinstance(b, num) and not isinstance(b, bool):
        a = a.scalar()
    if isinstance(b, Obj) and isinstance(a, num) and not isinstance(a, bool):
        b = b.scalar()
    if isinstance(a, Obj) and isinstance(b, bool):
        a = a.truth()
    if isinstance(b, Obj) and isinstance(a, bool):
        b = b.truth()
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a == b else '%r / %r' % (a, b)
    if isinstance(a, num) and isinstance(b, num):
        if tol is EXACT:
            if isinstance(a, float) or isinstance(b, float):
                return None if close(a, b) else '%.10g / %.10g' % (float(a), float(b))
            return None if a == b else '%.20g / %.20g' % (a, b)
        return None if close(a, b, tol) else '%.10g / %.10g' % (float(a), float(b))
    if isinstance(a, list) and isinstance(b, list):
        a, b = mergelits(a), mergelits(b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y, tol)
            if d:
                return '[%d]: %s' % (i, d)
        if len(a) != len(b):
            return 'length %d / %d' % (len(a), len(b))
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return '%r / %r' % (a[:3], b[:3])
        for i, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y, tol)
            if d:
                return '.%d %s' % (i, d)
        return None
    if a == b and type(a) == type(b):
        return None
    return '%r / %r' % (a, b)
