"""Value-graph terms: hash-consed, algebraically normalised.

Scalars are quotients of multivariate polynomials over opaque atoms (exact
rational coefficients); conditional values are multi-terminal decision diagrams
with a fixed order of condition atoms; collections are functional (length plus
element function).  Two program fragments that compute the same function in
this algebra get the *same* interned node, independent of how they are written.
"""
import hashlib
from fractions import Fraction

_tab = {}
_cnt = [0]


def _hs(s):
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), 'big')


_hcache = {}


def hstr(s):
    v = _hcache.get(s)
    if v is None:
        v = _hcache[s] = _hs(s)
    return v


_M = (1 << 61) - 1


def _mix(h, x):
    h = (h ^ x) & 0xFFFFFFFFFFFFFFFF
    h = (h * 0x9E3779B97F4A7C15 + 0x7F4A7C15) & 0xFFFFFFFFFFFFFFFF
    return h ^ (h >> 29)


EMPTY = frozenset()


class T:
    __slots__ = ('op', 'args', 'h', 'fv', 'height', 'size', 'conds', '__weakref__')

    def __repr__(self):
        return show(self)


def _child(x, acc):
    if isinstance(x, T):
        acc.append(x)
    elif isinstance(x, tuple):
        for y in x:
            _child(y, acc)


def _hash_arg(x):
    if isinstance(x, T):
        return x.h
    if isinstance(x, tuple):
        h = 0x1234567
        for y in x:
            h = _mix(h, _hash_arg(y))
        return h
    return hstr(type(x).__name__[0] + str(x)) if not isinstance(x, (int, Fraction)) or isinstance(x, bool) else hstr('n' + str(x))


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    h = hstr(op)
    for a in args:
        h = _mix(h, _hash_arg(a))
    t.h = h
    ch = []
    for a in args:
        _child(a, ch)
    if op in ('fv', 'mu'):
        t.fv = frozenset((t,))
    elif len(ch) == 1:
        t.fv = ch[0].fv
    else:
        s = EMPTY
        for c in ch:
            if c.fv:
                s = s | c.fv if s else c.fv
        t.fv = s
    t.height = max([c.height for c in ch], default=0)
    if op == 'lam':
        t.height = t.args[0][0].args[0] if t.args[0] else t.height
    if op == 'bv':
        t.height = 0
    t.size = 1 + sum(c.size for c in ch)
    t.conds = None
    _tab[key] = t
    return t


# ---------------------------------------------------------------- polynomials
# Poly: tuple of (mono, coeff), sorted; mono: tuple of (atom, exp) sorted by hash.


def _mkey(m):
    return tuple((a.h, e) for a, e in m)


_mk_cache = {}


def mkey(m):
    k = _mk_cache.get(m)
    if k is None:
        k = _mk_cache[m] = (sum(e for _, e in m), _mkey(m))
    return k


def pnorm(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: mkey(mc[0]), reverse=True)
    return tuple(items)


PZERO = ()
PONE = (((), 1),)


def _c(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


def pconst(c):
    c = _c(c)
    return (((), c),) if c != 0 else PZERO


def patom(a):
    return ((((a, 1),), 1),)


def padd(p, q):
    if not p:
        return q
    if not q:
        return p
    d = dict(p)
    for m, c in q:
        d[m] = _c(d.get(m, 0) + c)
    return pnorm(d)


def pscale(p, k):
    if k == 0:
        return PZERO
    if k == 1:
        return p
    return tuple((m, _c(c * k)) for m, c in p)


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].h))


def pmul(p, q):
    if not p or not q:
        return PZERO
    if p == PONE:
        return q
    if q == PONE:
        return p
    d = {}
    for m, c in p:
        for n, k in q:
            x = mmul(m, n)
            d[x] = _c(d.get(x, 0) + c * k)
    return pnorm(d)


def ppow(p, n):
    r = PONE
    for _ in range(n):
        r = pmul(r, p)
    return r


def pis_const(p):
    return not p or (len(p) == 1 and p[0][0] == ())


def pconst_val(p):
    return p[0][1] if p else 0


def patoms(p):
    s = set()
    for m, _ in p:
        for a, _e in m:
            s.add(a)
    return s


def mdiv(m, n):
    d = dict(m)
    for a, e in n:
        x = d.get(a, 0) - e
        if x < 0:
            return None
        if x:
            d[a] = x
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda ae: ae[0].h))


def plead(p, atoms):
    """leading term under lex order on the atom list"""
    def k(mc):
        d = dict(mc[0])
        return tuple(d.get(a, 0) for a in atoms)
    return max(p, key=k)


def pdivmod(p, q):
    """multivariate division of p by q (lex on q's atoms first)"""
    atoms = sorted(patoms(q), key=lambda a: a.h, reverse=True)
    rest = sorted(patoms(p) - set(atoms), key=lambda a: a.h, reverse=True)
    order = atoms + rest
    lm, lc = plead(q, order)
    quo = {}
    rem = {}
    cur = dict(p)
    steps = 0
    while cur:
        steps += 1
        if steps > 4000:
            return None, p
        m = max(cur, key=lambda m_: tuple(dict(m_).get(a, 0) for a in order))
        c = cur[m]
        t = mdiv(m, lm)
        if t is None:
            rem[m] = c
            del cur[m]
            continue
        k = _c(Fraction(c) / lc)
        quo[t] = _c(quo.get(t, 0) + k)
        for n, d in q:
            x = mmul(t, n)
            v = _c(cur.get(x, 0) - k * d)
            if v == 0:
                cur.pop(x, None)
            else:
                cur[x] = v
    return pnorm(quo), pnorm(rem)


def pexact(p, q):
    """p / q when exact, else None"""
    if len(q) == 1:
        m, c = q[0]
        out = {}
        for n, k in p:
            t = mdiv(n, m)
            if t is None:
                return None
            out[t] = _c(Fraction(k) / c)
        return pnorm(out)
    if not (patoms(q) <= patoms(p)):
        return None
    quo, rem = pdivmod(p, q)
    return quo if quo is not None and not rem else None


def pcontent(p):
    """common monomial of all terms"""
    it = iter(p)
    m, _ = next(it)
    com = dict(m)
    for n, _ in it:
        if not com:
            break
        d = dict(n)
        com = {a: min(e, d[a]) for a, e in com.items() if a in d}
    return tuple(sorted(com.items(), key=lambda ae: ae[0].h))


# ------------------------------------------------------------------ constants
TRUE = mk('true')
FALSE = mk('false')
BOT = mk('bot')


def _rat(num, den):
    return mk('rat', num, den)


def const(c):
    return _rat(pconst(Fraction(c)), ())


ZERO = const(0)
ONE = const(1)
TWO = const(2)


def atom(a):
    return _rat(patom(a), ())


PI_ATOM = mk('sym', 'pi')
PI = atom(PI_ATOM)


def is_rat(t):
    return t.op == 'rat'


def cval(t):
    """numeric value of a constant scalar or None"""
    if t.op == 'rat' and not t.args[1] and pis_const(t.args[0]):
        return pconst_val(t.args[0])
    return None


def as_atom(t):
    """the single atom a scalar consists of, or None"""
    if t.op == 'rat' and not t.args[1]:
        p = t.args[0]
        if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1 and p[0][0][0][1] == 1:
            return p[0][0][0][0]
    return None


# ------------------------------------------------------------------ facts
class Facts:
    def __init__(self):
        self.lo = {}      # atom -> rat lower bound (inclusive)
        self.hi = {}      # atom -> rat upper bound (inclusive)
        self.pos = set()  # atoms known > 0
        self.nonneg = set()
        self.ints = set()


facts = Facts()


def reset_facts():
    facts.__init__()
    clear_memo()


def atom_nonneg(a):
    if a in facts.pos or a in facts.nonneg:
        return True
    if a is PI_ATOM:
        return True
    if a.op in ('len', 'rows', 'cols', 'div', 'mod', 'first', 'last'):
        return True
    if a.op == 'fn' and a.args[0] in ('sqrt', 'abs'):
        return True
    if a.op == 'fv' and a.args[1] == 'n':
        return True
    if a.op == 'sym' and len(a.args) > 1 and a.args[1] == 'u':
        return True
    if a.op in ('proj', 'idx', 'app') and a.args and a.args[-1] == 'u':
        return True
    if a in facts.lo:
        l = cval(facts.lo[a])
        if l is not None and l >= 0:
            return True
    return False


def atom_pos(a):
    if a in facts.pos or a is PI_ATOM:
        return True
    return False


PI_LO, PI_HI = Fraction(3141592653589793, 10**15), Fraction(3141592653589794, 10**15)


def _numlo(p, depth=0):
    """numeric lower bound of polynomial, or None"""
    if depth > 6:
        return None
    # eliminate atoms that have symbolic bounds
    for m, c in p:
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            b = facts.lo.get(a) if c > 0 else facts.hi.get(a)
            # only if linear occurrence everywhere and bound polynomial
            if b is not None and b.op == 'rat' and not b.args[1] and (cval(b) is None or True):
                if sum(1 for mm, _ in p if any(x is a for x, _e in mm)) == 1:
                    rest = tuple(mc for mc in p if mc[0] != m)
                    r = _numlo(padd(rest, pscale(b.args[0], c)), depth + 1)
                    if r is not None:
                        return r
    tot = 0
    for m, c in p:
        if not m:
            tot += c
            continue
        r = _mono_bounds(m)
        if r is None:
            return None
        lo, hi = r
        v = lo if c > 0 else hi
        if v is None:
            return None
        tot += c * v
    return tot


def _mono_bounds(m):
    lo, hi = 1, 1
    for a, e in m:
        al, ah = _atom_bounds(a)
        if e % 2 == 0 and (al is None or al < 0):
            al2, ah2 = 0, (None if ah is None or al is None else max(abs(al), abs(ah)) ** e)
        else:
            if al is None:
                if ah is None or len(m) > 1:
                    return None
                al2, ah2 = None, ah ** e if e == 1 else None
            elif al < 0:
                if len(m) > 1:
                    return None
                al2, ah2 = al ** e, (ah ** e if ah is not None else None)
            else:
                al2, ah2 = al ** e, (ah ** e if ah is not None else None)
        if lo is None or al2 is None:
            lo = None if len(m) > 1 else al2
        else:
            lo = lo * al2
        hi = None if hi is None or ah2 is None else hi * ah2
    return lo, hi


def _atom_bounds(a):
    if a is PI_ATOM:
        return PI_LO, PI_HI
    lo = hi = None
    if a in facts.lo:
        lo = cval(facts.lo[a])
        if lo is None:
            l = facts.lo[a]
            if l.op == 'rat' and not l.args[1]:
                lo = _numlo(l.args[0], 4)
    if a in facts.hi:
        h = facts.hi[a]
        hi = cval(h)
        if hi is None and h.op == 'rat' and not h.args[1]:
            x = _numlo(pscale(h.args[0], -1), 4)
            hi = -x if x is not None else None
    if lo is None and atom_nonneg(a):
        lo = 0
    if a.op == 'fn' and a.args[0] in ('sin', 'cos'):
        lo = -1 if lo is None else lo
        hi = 1 if hi is None else hi
    return lo, hi


def plo(p):
    return _numlo(p)


def phi(p):
    r = _numlo(pscale(p, -1))
    return -r if r is not None else None


# ------------------------------------------------------------------ rationals
_memo = {}


def clear_memo():
    _memo.clear()
    _submemo.clear()


def _reducible(a):
    return a.op == 'fn' and a.args[0] in ('sin', 'sqrt', 'abs')


def _mk_rat(num, den):
    """num poly, den dict(factor poly -> exp)"""
    if not num:
        return ZERO
    # relations: sin^2 = 1-cos^2, sqrt^2 = arg
    for m, c in num:
        for a, e in m:
            if e >= 2 and _reducible(a):
                return _reduce(num, den)
    nd = {}
    for f, e in den.items():
        while e > 0:
            q = pexact(num, f)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            # reduce sqrt in the denominator
            if len(f) == 1 and len(f[0][0]) == 1:
                a = f[0][0][0][0]
                if a.op == 'fn' and a.args[0] == 'sqrt' and e >= 2:
                    inner = a.args[1]
                    r = _mk_rat(num, {**{k: v for k, v in den.items() if k != f}, **({f: e % 2} if e % 2 else {})})
                    for _ in range(e // 2):
                        r = div(r, inner)
                    return r
            nd[f] = e
    dt = tuple(sorted(nd.items(), key=lambda fe: tuple(mkey(m) for m, _ in fe[0])))
    return _rat(num, dt)


def _reduce(num, den):
    acc = ZERO
    for m, c in num:
        t = const(c)
        for a, e in m:
            if e >= 2 and _reducible(a):
                if a.args[0] == 'sin':
                    co = atom(mk('fn', 'cos', a.args[1]))
                    base = sub(ONE, mul(co, co))
                else:
                    base = a.args[1] if a.args[0] == 'sqrt' else mul(a.args[1], a.args[1])
                for _ in range(e // 2):
                    t = mul(t, base)
                if e % 2:
                    t = mul(t, atom(a))
            else:
                t = mul(t, _rat(((((a, e),), 1),), ()))
        acc = add(acc, t)
    if den:
        acc = mul(acc, _mk_rat(PONE, den))
    return acc


def _factors(num):
    """factor a nonzero poly into (const, {factor: exp}) using monomial content"""
    m = pcontent(num)
    out = {}
    rest = num
    if m:
        rest = pexact(num, ((m, 1),))
        for a, e in m:
            out[patom(a)] = e
    c = rest[0][1]
    rest = pscale(rest, Fraction(1) / c)
    if not pis_const(rest):
        out[rest] = out.get(rest, 0) + 1
    return c, out


def _lift(name, f, *args):
    """apply f to scalar args, hoisting conditions to the top"""
    for a in args:
        if a is BOT:
            return BOT
    best = None
    for a in args:
        if a.op == 'ite':
            c = a.args[0]
            if best is None or ckey(c) < ckey(best):
                best = c
    if best is None:
        return f(*args)
    key = ('L', name, args)
    r = _memo.get(key)
    if r is None:
        n = arity(best)
        kids = [_lift(name, f, *[cof(a, best, b) for a in args]) for b in range(n)]
        r = _memo[key] = mk_ite(best, kids)
    return r


def _chk(t):
    if t.op != 'rat':
        raise NotScalar(t)
    return t


class NotScalar(Exception):
    pass


def _as_scalar(t):
    if t.op in ('rat', 'ite', 'bot'):
        return t
    if t.op in ('agg', 'lam', 'true', 'false', 'enum', 'rv', 'ref', 'cat', 'comp', 'flat', 'unit', 'base'):
        raise NotScalar(t)
    return atom(t)


def _add(a, b):
    a, b = _as_scalar(a), _as_scalar(b)
    na, da = a.args
    nb, db = b.args
    if da == db:
        return _mk_rat(padd(na, nb), dict(da)) if da else _mk_rat(padd(na, nb), {})
    da, db = dict(da), dict(db)
    l = dict(da)
    for f, e in db.items():
        l[f] = max(l.get(f, 0), e)
    for f, e in l.items():
        for _ in range(e - da.get(f, 0)):
            na = pmul(na, f)
        for _ in range(e - db.get(f, 0)):
            nb = pmul(nb, f)
    return _mk_rat(padd(na, nb), l)


def _mul(a, b):
    a, b = _as_scalar(a), _as_scalar(b)
    na, da = a.args
    nb, db = b.args
    if not da and not db:
        return _mk_rat(pmul(na, nb), {})
    # cancel across
    da, db = dict(da), dict(db)
    for f in list(da):
        while da[f]:
            q = pexact(nb, f) if nb else None
            if q is None:
                break
            nb = q
            da[f] -= 1
        if not da[f]:
            del da[f]
    for f in list(db):
        while db[f]:
            q = pexact(na, f) if na else None
            if q is None:
                break
            na = q
            db[f] -= 1
        if not db[f]:
            del db[f]
    d = dict(da)
    for f, e in db.items():
        d[f] = d.get(f, 0) + e
    return _mk_rat(pmul(na, nb), d)


def _inv(a):
    a = _as_scalar(a)
    n, d = a.args
    if not n:
        return atom(mk('fn', 'inv0'))  # division by the literal zero
    c, fs = _factors(n)
    num = pconst(Fraction(1) / c)
    for f, e in d:
        for _ in range(e):
            num = pmul(num, f)
    return _mk_rat(num, fs)


_mods = [False]


def _addm(a, b):
    r = _add(a, b)
    if _mods[0] and r.op == 'rat' and not r.args[1] and len(r.args[0]) > 1:
        r = _remod(r)
    return r


def _remod(r):
    """m * div(i, m) + mod(i, m) is i"""
    for mono, c in r.args[0]:
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == 'mod':
            R = mono[0][0]
            D = mk('div', *R.args)
            if any(a is D for m2, _ in r.args[0] for a, _ in m2):
                e = _add(_add(R.args[0], _mul(const(-1), _mul(R.args[1], atom(D)))), _mul(const(-1), atom(R)))
                n = _add(r, _mul(const(c), e))
                if n.op == 'rat' and not any(a is D for m2, _ in n.args[0] for a, _ in m2):
                    return n
    return r


def add(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = _lift('add', _addm, r, x)
    return r


def mul(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = _lift('mul', _mul, r, x)
    return r


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def inv(a):
    return _lift('inv', _inv, a)


def div(a, b):
    return mul(a, inv(b))


def eq_rat(a, b):
    return a is b or sub(a, b) is ZERO


# ------------------------------------------------------------------ functions
def _sqrt(x):
    x = _as_scalar(x)
    c = cval(x)
    if c is not None:
        if c == 0:
            return ZERO
        if c > 0:
            f = Fraction(c)
            import math
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return const(Fraction(n, d))
    num, den = x.args
    if num and not den:
        m = pcontent(num)
        out = {}
        rem = {}
        for a, e in m:
            if e >= 2 and (atom_nonneg(a)):
                out[a] = e // 2
                rem[a] = (e // 2) * 2
            elif e >= 2:
                out[mk('fn', 'abs', atom(a))] = e // 2
                rem[a] = (e // 2) * 2
        if out:
            k = tuple(sorted(rem.items(), key=lambda ae: ae[0].h))
            rest = pexact(num, ((k, 1),))
            o = tuple(sorted(out.items(), key=lambda ae: ae[0].h))
            return mul(_mk_rat(((o, 1),), {}), _sqrt(_mk_rat(rest, {})))
    return atom(mk('fn', 'sqrt', x))


def sqrt(x):
    return _lift('sqrt', _sqrt, x)


def _fn(name):
    def g(*xs):
        xs = [_as_scalar(x) for x in xs]
        if name == 'sin':
            return _sincos('sin', xs[0])
        if name == 'cos':
            return _sincos('cos', xs[0])
        if name == 'atan2':
            return _atan2(*xs)
        return atom(mk('fn', name, *xs))
    return g


def fn(name, *xs):
    return _lift('fn:' + name, _fn(name), *xs)


def _sincos(which, x):
    c = cval(x)
    if c == 0:
        return ZERO if which == 'sin' else ONE
    num, den = x.args
    # x = y + q*pi, q multiple of 1/2
    if not den:
        d = dict(num)
        pm = ((PI_ATOM, 1),)
        q = d.pop(pm, 0)
        if q:
            h = Fraction(q) * 2
            if h.denominator == 1:
                y = _mk_rat(pnorm(d), {}) if d else ZERO
                k = h.numerator % 4
                s = lambda: _sincos('sin', y)
                co = lambda: _sincos('cos', y)
                if which == 'sin':
                    return [s, co, lambda: neg(s()), lambda: neg(co())][k]()
                return [co, lambda: neg(s()), lambda: neg(co()), s][k]()
        # parity: leading coefficient positive
        if num[0][1] < 0:
            r = atom(mk('fn', which, neg(x)))
            return neg(r) if which == 'sin' else r
    return atom(mk('fn', which, x))


def _atan2(y, x):
    """atan2(R sin t, R cos t) with R > 0 and t known in (-pi,pi] or shifted"""
    cand = set()
    for p in (y.args[0], x.args[0]):
        for a in patoms(p):
            if a.op == 'fn' and a.args[0] in ('sin', 'cos'):
                cand.add(a.args[1])
    for t in sorted(cand, key=lambda t: t.h):
        s, c = fn('sin', t), fn('cos', t)
        if sub(mul(y, c), mul(x, s)) is ZERO:
            r = add(mul(y, s), mul(x, c))
            if rsign(r) == 1:
                w = wrap_pi(t)
                if w is not None:
                    return w
    # scale invariance: drop a common positive factor
    m = None
    num_y, num_x = y.args[0], x.args[0]
    if num_y and num_x:
        my, mx = dict(pcontent(num_y)), dict(pcontent(num_x))
        com = [(a, min(e, mx[a])) for a, e in my.items() if a in mx and (atom_pos(a) or (a.op == 'fn' and a.args[0] == 'sqrt'))]
        if com:
            f = _mk_rat(((tuple(sorted(com, key=lambda ae: ae[0].h)), 1),), {})
            return _atan2(div(y, f), div(x, f))
        com = [f for f, e in y.args[1] if f in dict(x.args[1]) and psign(f) == 1]
        if com:
            f = _mk_rat(com[0], {})
            return _atan2(mul(y, f), mul(x, f))
    return atom(mk('fn', 'atan2', y, x))


def wrap_pi(t):
    """t wrapped to (-pi, pi] when its range decides by how much, else None"""
    for k in (0, -2, 2):
        w = add(t, mul(const(k), PI))
        lo, hi = plo(padd(w.args[0], patom(PI_ATOM))), phi(padd(w.args[0], pscale(patom(PI_ATOM), -1)))
        if lo is not None and hi is not None and lo > -Fraction(1, 10**9) and hi < Fraction(1, 10**9):
            return w
    return None


# ------------------------------------------------------------------ conditions
def arity(c):
    return 3 if c.op == 'c_sgn' else 2


def ckey(c):
    # conditions without loop/bound variables first, then by content
    return (c.op == 'c_sgn', c.h) if False else c.h


def psign(p):
    """sign of polynomial from facts: 1,-1,0 or None"""
    if not p:
        return 0
    if pis_const(p):
        return 1 if pconst_val(p) > 0 else -1
    if len(p) == 1 and all(atom_pos(a) or e % 2 == 0 and False for a, e in p[0][0]):
        return 1 if p[0][1] > 0 else -1
    if len(p) == 1 and all(atom_pos(a) for a, e in p[0][0]):
        return 1 if p[0][1] > 0 else -1
    # sqrt in denominators is positive
    if len(p) == 1 and all(atom_pos(a) or (a.op == 'fn' and a.args[0] == 'sqrt') for a, e in p[0][0]) and False:
        return 1
    s0 = p[0][1] > 0
    if all((c > 0) == s0 and all(e % 2 == 0 or atom_pos(a) or atom_nonneg(a) for a, e in m) for m, c in p) \
            and any(all(atom_pos(a) for a, e in m) for m, c in p):
        return 1 if s0 else -1
    l = plo(p)
    if l is not None and l > 0:
        return 1
    h = phi(p)
    if h is not None and h < 0:
        return -1
    # strict: open ranges are registered in facts via 'strict' atoms
    if facts_strict:
        s = _strict_sign(p)
        if s is not None:
            return s
    for f in sign_hooks:
        s = f(p)
        if s is not None:
            return s
    return None


sign_hooks = []         # polynomial -> its sign, when the class of inputs decides it
facts_strict = set()  # atoms whose lo/hi bounds are exclusive


def _strict_sign(p):
    if not any(a in facts_strict for a in patoms(p)):
        return None
    l = plo(p)
    if l is not None and l >= 0 and any(len(m) >= 1 and any(a in facts_strict for a, _ in m) for m, c in p):
        return 1
    h = phi(p)
    if h is not None and h <= 0:
        return -1
    # exact bounds involving pi: substitute the bounds symbolically
    for s in (1, -1):
        q = pscale(p, s)
        ok = True
        for m, c in p:
            pass
        r = q
        for m, c in q:
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in facts_strict:
                a = m[0][0]
                b = facts.lo.get(a) if c > 0 else facts.hi.get(a)
                if b is None:
                    ok = False
                    break
                r = padd(tuple(x for x in r if x[0] != m), pscale(b.args[0], c))
        if ok:
            if not r:
                return s
            l = plo(r)
            if l is not None and l >= 0:
                return s
    return None


def rsign(t):
    if t.op != 'rat':
        return None
    s = psign(t.args[0])
    if s is None:
        # product of content and rest
        if t.args[0]:
            m = pcontent(t.args[0])
            if m:
                rest = pexact(t.args[0], ((m, 1),))
                sr = psign(rest)
                if sr is not None and all(atom_pos(a) or (a.op == 'fn' and a.args[0] == 'sqrt' and False) for a, e in m):
                    s = sr
        if s is None:
            return None
    for f, e in t.args[1]:
        if e % 2 == 0:
            continue
        k = psign(f)
        if k is None:
            if len(f) == 1 and len(f[0][0]) == 1 and atom_nonneg(f[0][0][0][0]):
                k = 1  # a nonzero nonnegative quantity
            else:
                return None
        s *= k
    return s


def _primitive(p):
    """scale to primitive integer coefficients, positive scale"""
    from math import gcd
    den = 1
    for m, c in p:
        d = Fraction(c).denominator
        den = den * d // gcd(den, d)
    g = 0
    for m, c in p:
        g = gcd(g, abs(int(c * den)))
    return pscale(p, Fraction(den, g)) if g else p


def _sgn_node(t):
    """(cond, flipped) or sign constant for real scalar t"""
    t = _as_scalar(t)
    s = rsign(t)
    if s is not None:
        return s
    num, den = t.args
    # drop positive monomial factors; multiply by odd denominators of unknown sign
    m = pcontent(num)
    drop = tuple((a, e) for a, e in m if atom_pos(a))
    if drop:
        num = pexact(num, ((drop, 1),))
    flip = False
    for f, e in den:
        if e % 2:
            k = psign(f)
            if k is None:
                if len(f) == 1 and len(f[0][0]) == 1 and atom_nonneg(f[0][0][0][0]):
                    k = 1
            if k is None:
                num = pmul(num, f)
            elif k < 0:
                flip = not flip
    num = _primitive(num)
    if num[0][1] < 0:
        num = pscale(num, -1)
        flip = not flip
    r = _mk_rat(num, {})
    return mk('c_sgn', r), flip


def _sgn3(t, n, z, p):
    r = _sgn_node(t)
    if isinstance(r, int):
        return (n, z, p)[r + 1]
    c, flip = r
    return mk_ite(c, [p, z, n] if flip else [n, z, p])


def sgn3(t, n, z, p):
    """three-way selection on the sign of real t"""
    if t.op == 'ite':
        c = t.args[0]
        return sel_ite(c, [sgn3(k, n, z, p) for k in t.args[1:]])
    if t is BOT:
        return BOT
    return _sgn3(t, n, z, p)


def sel_ite(c, kids):
    return mk_ite(c, kids)


def _int_pos(t):
    """boolean for integer t > 0"""
    t = _as_scalar(t)
    num, den = t.args
    if den:
        c = mk('c_pos', t)
        return mk_ite(c, [FALSE, TRUE])
    if pis_const(num):
        return TRUE if pconst_val(num) > 0 else FALSE
    l = plo(num)
    if l is not None and l > 0:
        return TRUE
    h = phi(num)
    if h is not None and h <= 0:
        return FALSE
    # canonical: p>0 with integer coefficients
    from math import gcd, floor
    d = dict(num)
    k = d.pop((), 0)
    q = pnorm(d)
    den_ = 1
    for m, c in q:
        x = Fraction(c).denominator
        den_ = den_ * x // gcd(den_, x)
    g = 0
    for m, c in q:
        g = gcd(g, abs(int(c * den_)))
    sc = Fraction(den_, g)
    q = pscale(q, sc)
    k = Fraction(k) * sc
    # q + k > 0 <=> q > -k <=> q - floor(-k) > 0
    k = -floor(-k)
    if q[0][1] < 0:
        # p>0 <=> not (1-p>0)
        p2 = padd(pscale(q, -1), pconst(1 - k))
        return mk_ite(mk('c_pos', _mk_rat(p2, {})), [TRUE, FALSE])
    return mk_ite(mk('c_pos', _mk_rat(padd(q, pconst(k)), {})), [FALSE, TRUE])


def int_pos(t):
    return _lift('ipos', _int_pos, t)


def int_lt(a, b):
    return int_pos(sub(b, a))


def int_le(a, b):
    return int_pos(add(sub(b, a), ONE))


def _int_eq0(t):
    t = _as_scalar(t)
    num, den = t.args
    if not num:
        return TRUE
    if pis_const(num):
        return FALSE
    l = plo(num)
    h = phi(num)
    if (l is not None and l > 0) or (h is not None and h < 0):
        return FALSE
    num = _primitive(num)
    if num[0][1] < 0:
        num = pscale(num, -1)
    # non-integral constant -> never equal
    return mk_ite(mk('c_eq', _mk_rat(num, {})), [FALSE, TRUE])


def int_eq(a, b):
    return _lift('ieq', _int_eq0, sub(a, b))


def real_lt(a, b):
    return sgn3(sub(a, b), TRUE, FALSE, FALSE)


def real_le(a, b):
    return sgn3(sub(a, b), TRUE, TRUE, FALSE)


def real_eq(a, b):
    return sgn3(sub(a, b), FALSE, TRUE, FALSE)


def b_atom(*args):
    """opaque boolean"""
    return mk_ite(mk('c_b', *args), [FALSE, TRUE])


def is_variant(t, v, nv=2):
    if nv == 2 and v == 0:
        return b_not(is_variant(t, 1, 2))
    return mk_ite(mk('c_is', t, v), [FALSE, TRUE])


# --------------------------------------------------------------------- ite
def _pd(a, b):
    """if b == a + k return k, if b == -a + k return ('-',k)"""
    d = padd(b, pscale(a, -1))
    if pis_const(d):
        return (1, pconst_val(d))
    d = padd(b, a)
    if pis_const(d):
        return (-1, pconst_val(d))
    return None


_impl = {}


def implied(c, b, d):
    """branch of d forced when c takes branch b, or None"""
    if c is d:
        return b
    key = (c, b, d)
    r = _impl.get(key, 0)
    if r != 0:
        return r
    r = _implied(c, b, d)
    _impl[key] = r
    return r


def _implied(c, b, d):
    co, do = c.op, d.op
    if co in ('c_pos', 'c_eq') and do in ('c_pos', 'c_eq'):
        p, q = c.args[0].args[0], d.args[0].args[0]
        if c.args[0].args[1] or d.args[0].args[1]:
            return None
        r = _pd(p, q)
        if r is None:
            return None
        s, k = r
        # range of p
        if co == 'c_pos':
            lo, hi = (1, None) if b else (None, 0)
        else:
            if not b:
                return None if not (do == 'c_eq' and k == 0) else 0
            lo, hi = 0, 0
        if s == 1:
            ql, qh = (None if lo is None else lo + k), (None if hi is None else hi + k)
        else:
            ql, qh = (None if hi is None else -hi + k), (None if lo is None else -lo + k)
        if do == 'c_pos':
            if ql is not None and ql > 0:
                return 1
            if qh is not None and qh <= 0:
                return 0
        else:
            if ql is not None and qh is not None and ql == qh == 0:
                return 1
            if (ql is not None and ql > 0) or (qh is not None and qh < 0):
                return 0
        return None
    if co == 'c_is' and do == 'c_is' and c.args[0] is d.args[0] and b == 1:
        return 0
    if co == 'c_sgn' and do == 'c_sgn':
        p, q = c.args[0].args[0], d.args[0].args[0]
        r = _pd(p, q)
        if r is None:
            return None
        s, k = r
        # p sign: b-1
        if b == 1:
            v = k
            return 2 if v > 0 else (0 if v < 0 else 1)
        sg = (b - 1) * s
        if sg > 0 and k >= 0:
            return 2
        if sg < 0 and k <= 0:
            return 0
    return None


def conds_of(t):
    """set of condition atoms in the ite skeleton (not below leaves)"""
    if t.op != 'ite':
        return EMPTY
    r = t.conds
    if r is None:
        s = {t.args[0]}
        for k in t.args[1:]:
            s |= conds_of(k)
        r = t.conds = frozenset(s)
    return r


def cof(t, c, b):
    """restrict the decision diagram t by c=b"""
    if t.op != 'ite':
        return t
    key = ('cof', t, c, b)
    r = _memo.get(key)
    if r is not None:
        return r
    rel = False
    for d in conds_of(t):
        if implied(c, b, d) is not None:
            rel = True
            break
    if not rel:
        r = t
    else:
        d = t.args[0]
        i = implied(c, b, d)
        if i is not None:
            r = cof(t.args[1 + i], c, b)
        else:
            r = mk_ite(d, [cof(k, c, b) for k in t.args[1:]])
    _memo[key] = r
    return r


def mk_ite(c, kids):
    key = ('ite', c, tuple(kids))
    r = _memo.get(key)
    if r is not None:
        return r
    r = _mk_ite(c, list(kids))
    _memo[key] = r
    return r


PUSH = ('agg', 'rv', 'ref')


def _mk_ite(c, kids):
    kids = [cof(k, c, i) for i, k in enumerate(kids)]
    live = [k for k in kids if k is not BOT]
    if not live:
        return BOT
    if all(k is live[0] for k in live):
        return live[0]
    # push into structures
    if all(k.op == 'agg' for k in live) and len({(k.args[0], len(k.args)) for k in live}) == 1:
        n = len(live[0].args)
        return mk('agg', live[0].args[0],
                  *[mk_ite(c, [BOT if k is BOT else k.args[j] for k in kids]) for j in range(1, n)])
    if all(k.op == 'rv' for k in live):
        return mk('rv', mk_ite(c, [BOT if k is BOT else k.args[0] for k in kids]))
    best = c
    for k in live:
        if k.op == 'ite':
            d = k.args[0]
            if ckey(d) < ckey(best):
                best = d
    if best is not c:
        return mk_ite(best, [mk_ite(c, [cof(k, best, b) for k in kids]) for b in range(arity(best))])
    # zero branches
    if c.op == 'c_sgn':
        kids = _sgn_zero(c, kids)
    elif c.op == 'c_eq':
        kids = _eq_zero(c, kids)
    elif c.op == 'c_pos':
        kids = _pos_zero(c, kids)
    live = [k for k in kids if k is not BOT]
    if all(k is live[0] for k in live):
        return live[0]
    return mk('ite', c, *kids)


def _solve_lin(p):
    """atom, value such that p == 0 <=> atom == value (coefficient +-1, or rational for reals)"""
    best = None
    for m, c in p:
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if sum(1 for mm, _ in p if any(x is a for x, _ in mm)) != 1:
                continue
            # the atom must not occur inside other atoms
            if any(a is not x and occurs(a, x) for mm, _ in p for x, _ in mm):
                continue
            rank = (a.op != 'fv', a.op != 'mu', a.op != 'bv', -a.size, a.h)
            if best is None or rank < best[0]:
                rest = tuple(mc for mc in p if mc[0] != m)
                best = (rank, a, _mk_rat(pscale(rest, Fraction(-1) / c), {}))
    return (best[1], best[2]) if best else None


_occ = {}


def occurs(a, t):
    if a is t:
        return True
    if a.fv and not (a.fv & t.fv):
        return False
    key = (a, t)
    r = _occ.get(key)
    if r is None:
        ch = []
        for x in t.args:
            _child(x, ch)
        r = any(occurs(a, x) for x in ch)
        _occ[key] = r
    return r


def _subst0(p, k):
    if k is BOT:
        return k
    s = _solve_lin(p)
    if s is None:
        return None
    return subst(k, {s[0]: s[1]})


def _sgn_zero(c, kids):
    n, z, p = kids
    if z is BOT or (z is n and z is p):
        return kids
    if z.size > 4000:
        return kids
    poly = c.args[0].args[0]
    if z is not n and z is not p:
        zs = _subst0(poly, z)
        if zs is None:
            return kids
        if n is not BOT and _subst0(poly, n) is zs:
            return [n, n, p]
        if p is not BOT and _subst0(poly, p) is zs:
            return [n, p, p]
        return kids
    if z is p and n is not BOT:
        # prefer the 'neg' representative when both agree at zero
        if _scalarish(z) and _subst0(poly, n) is not None and _subst0(poly, n) is _subst0(poly, z):
            return [n, n, p]
    return kids


def _scalarish(t):
    return t.op in ('rat', 'ite')


def _eq_zero(c, kids):
    f, t = kids
    if f is BOT or t is BOT or f.size > 4000:
        return kids
    poly = c.args[0].args[0]
    a = _subst0(poly, f)
    if a is not None and a is _subst0(poly, t):
        return [f, f]
    return kids


def _pos_zero(c, kids):
    """p>0 ? t : f where p is nonnegative: the false branch means p == 0"""
    f, t = kids
    if f is BOT or t is BOT or t.size > 4000:
        return kids
    poly = c.args[0].args[0]
    if c.args[0].args[1]:
        return kids
    l = plo(poly)
    if l is not None and l >= 0:
        a = _subst0(poly, t)
        if a is not None and a is _subst0(poly, f):
            return [t, t]
        return kids
    # p>0 true branch, p <= 0 false branch: p+? nothing more
    return kids


def ite(b, x, y):
    """select by boolean decision diagram b"""
    if b is TRUE:
        return x
    if b is FALSE:
        return y
    if b is BOT:
        return BOT
    key = ('sel', b, x, y)
    r = _memo.get(key)
    if r is None:
        r = mk_ite(b.args[0], [ite(k, x, y) for k in b.args[1:]])
        _memo[key] = r
    return r


def b_not(b):
    return ite(b, FALSE, TRUE)


def b_and(a, b):
    return ite(a, b, FALSE)


def b_or(a, b):
    return ite(a, TRUE, b)


def restrict(v, g):
    """v under the assumption g (outside g undefined)"""
    if g is TRUE:
        return v
    return ite(g, v, BOT)


# --------------------------------------------------------------------- lambda
_fvc = [0]


def fresh(kind='n', lo=None, hi=None, name='k'):
    """fresh variable atom; kind 'n' natural, 'r' real, 'x' opaque"""
    _fvc[0] += 1
    a = mk('fv', _fvc[0], kind)
    if kind == 'n' and lo is None:
        lo = ZERO
    if lo is not None:
        facts.lo[a] = lo
    if hi is not None:
        facts.hi[a] = hi
    return a


def lam(vars_, body):
    """close body over fresh variable atoms"""
    h = body.height + 1
    bvs = tuple(mk('bv', h, i) for i in range(len(vars_)))
    # rename; heights of inner binders are all < h
    b = subst(body, {v: (atom(n) if v.args[-1] != 'x' else n) for v, n in zip(vars_, bvs)})
    if b.height + 1 != h:
        # renaming changed nesting (simplification): redo from far above every inner binder
        h1 = body.height + b.height + 100
        bvs = tuple(mk('bv', h1, i) for i in range(len(vars_)))
        b = subst(body, {v: (atom(n) if v.args[-1] != 'x' else n) for v, n in zip(vars_, bvs)})
        h2 = b.height + 1
        b2 = subst_bv(b, bvs, tuple(mk('bv', h2, i) for i in range(len(vars_))))
        bvs = tuple(mk('bv', h2, i) for i in range(len(vars_)))
        b = b2
    return mk('lam', bvs, b)


def subst_bv(b, old, new):
    return _subst(b, {o: n for o, n in zip(old, new)}, True)


def inst(l, *vals):
    """apply lambda to values"""
    bvs, body = l.args
    key = ('inst', l, vals)
    r = _memo.get(key)
    if r is None:
        r = _subst(body, dict(zip(bvs, vals)), True)
        _memo[key] = r
    return r


_submemo = {}


def subst(t, m):
    m = {k: v for k, v in m.items()}
    return _subst(t, m, False)


def _subst(t, m, bv):
    key0 = (tuple(sorted(((k.h, v.h) for k, v in m.items()))), bv)
    memo = _submemo.setdefault(key0, {})
    keys = frozenset(m)
    minh = min((k.args[0] for k in m if k.op == 'bv'), default=0)
    return _sub(t, m, keys, bv, minh, memo)


_hasbv = {}


def has_bv(t, keys):
    """does t contain one of the bound variables (keys) free?"""
    k = (t, keys)
    r = _hasbv.get(k)
    if r is None:
        if t in keys:
            r = True
        else:
            ch = []
            for a in t.args:
                _child(a, ch)
            if t.op == 'lam' and any(b in keys for b in t.args[0]):
                r = False
            else:
                r = any(has_bv(c, keys) for c in ch)
        _hasbv[k] = r
    return r


def _sub(t, m, keys, bv, minh, memo):
    if t in m:
        return m[t]
    if bv:
        if not has_bv(t, keys):
            return t
    elif not (t.fv & keys) and not any(k.op not in ('fv', 'mu') for k in keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = _rebuild(t, lambda x: _sub(x, m, keys, bv, minh, memo))
    memo[t] = r
    return r


def _mapargs(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_mapargs(y, f) for y in x)
    return x


PLAIN = {'fv', 'bv', 'mu', 'sym', 'proj', 'idx', 'app', 'fold', 'len'}


def _renamed(p, at):
    """p with its atoms replaced one to one by other plain atoms; None if the replacement is not of this kind"""
    m = {}
    used = set()
    for mono, _ in p:
        for a, _ in mono:
            if a not in m:
                v = at(a)
                b = as_atom(v) if v.op == 'rat' else None
                if b is None or b in used or (b is not a and (a.op not in PLAIN or b.op not in PLAIN)):
                    return None
                m[a] = b
                used.add(b)
    return _rat(pnorm({tuple(sorted(((m[a], e) for a, e in mono), key=lambda ae: ae[0].h)): c for mono, c in p}), ())


def _rebuild(t, f):
    op = t.op
    if op == 'rat':
        num, den = t.args
        one = as_atom(t)
        if one is not None:
            w = f(one)
            if is_seq(w):
                return w        # a name of a sequence
        acc = ZERO
        cache = {}

        def at(a):
            v = cache.get(a)
            if v is None:
                w = f(a)
                v = cache[a] = w if w.op in ('rat', 'ite', 'bot') else atom(w) if w.op not in ('agg', 'cat', 'comp') else w
            return v

        def poly(p):
            acc = ZERO
            if len(p) > 4:
                q = _renamed(p, at)
                if q is not None:
                    return q
            for m, c in p:
                x = const(c)
                for a, e in m:
                    v = at(a)
                    for _ in range(e):
                        x = mul(x, v)
                acc = add(acc, x)
            return acc
        n = poly(num)
        for fac, e in den:
            d = inv(poly(fac))
            for _ in range(e):
                n = mul(n, d)
        return n
    if op == 'ite':
        c = t.args[0]
        kids = t.args[1:]
        return recond(c, f, lambda i: f(kids[i]))
    if op == 'lam':
        bvs, body = t.args
        # open with fresh variables, substitute, close
        fr = [fresh('n') for _ in bvs]
        b = _subst(body, dict(zip(bvs, fr)), True)
        # the mapping function f must see the opened body
        b = f(b)
        return lam(fr, b)
    b = builders.get(op)
    args = tuple(_mapargs(a, f) for a in t.args)
    if args == t.args:
        return t
    if b is not None:
        return b(*args)
    return mk(op, *args)


def recond(c, f, kid):
    """rebuild an ite whose condition is mapped through f; kid(i) lazily"""
    if c.op == 'c_sgn':
        return sgn3(f(c.args[0]), kid(0), kid(1), kid(2))
    if c.op == 'c_pos':
        b = int_pos(f(c.args[0]))
    elif c.op == 'c_eq':
        b = int_eq(f(c.args[0]), ZERO)
    elif c.op == 'c_is':
        x = f(c.args[0])
        b = variant_cond(x, c.args[1])
    else:
        args = tuple(_mapargs(a, f) for a in c.args)
        b = b_rebuild(args)
    if b is TRUE:
        return kid(1)
    if b is FALSE:
        return kid(0)
    return ite(b, kid(1), kid(0))


def b_rebuild(args):
    """opaque boolean whose scalar arguments may have become conditional"""
    for i, a in enumerate(args):
        if isinstance(a, T) and a.op == 'ite' and args[0] in LIFTB:
            c = a.args[0]
            return mk_ite(c, [b_rebuild(tuple(cof(x, c, j) if isinstance(x, T) else x for x in args)) for j in range(arity(c))])
    h = b_hooks.get(args[0])
    if h:
        return h(*args)
    return b_atom(*args)


LIFTB = {'near', 'ulps', 'nan'}
b_hooks = {}


def _near(tag, x, eps):
    """|x| <= eps, symmetric in the sign of x"""
    x = _as_scalar(x)
    if x.op == 'rat' and x.args[0] and x.args[0][0][1] < 0:
        x = neg(x)
    if x is ZERO:
        return TRUE
    c, e = cval(x), cval(eps)
    if c is not None and e is not None:
        return TRUE if abs(c) <= e else FALSE
    for h in near_hooks:
        r = h(tag, x)
        if r is not None:
            return r
    return b_atom(tag, x, eps)


near_hooks = []         # facts about quantities known not to vanish


def near(x, eps):
    return _lift('near', lambda a, b: _near('near', a, b), x, eps)


def ulps(x):
    return _lift('ulps', lambda a: _near('ulps', a, ZERO), x)


b_hooks['near'] = lambda tag, x, e: near(x, e)
b_hooks['ulps'] = lambda tag, x, e: ulps(x)


def variant_cond(x, v):
    if x.op == 'ite':
        c = x.args[0]
        return mk_ite(c, [variant_cond(k, v) for k in x.args[1:]])
    if x is BOT:
        return BOT
    if x.op == 'enum':
        return TRUE if x.args[1] == v else FALSE
    return mk_ite(mk('c_is', x, v), [FALSE, TRUE])


builders = {}


# ------------------------------------------------------------------ aggregates
def agg(tag, *fields):
    return mk('agg', tag, *fields)


def enum(name, v, *fields):
    """enum leaf; conditions in payload are hoisted"""
    def hoist(fs):
        best = None
        for x in fs:
            for c in deep_conds(x):
                if best is None or ckey(c) < ckey(best):
                    best = c
        return best
    for x in fields:
        if x is BOT:
            return BOT
    c = hoist(fields)
    if c is None:
        return mk('enum', name, v, *fields)
    key = ('enum', name, v, fields)
    r = _memo.get(key)
    if r is None:
        r = _memo[key] = mk_ite(c, [enum(name, v, *[deep_cof(x, c, b) for x in fields]) for b in range(arity(c))])
    return r


_dc = {}


def deep_conds(t):
    """conditions at ite-skeleton level, looking through aggregates"""
    r = _dc.get(t)
    if r is None:
        if t.op == 'ite':
            s = set(conds_of(t))
            for k in t.args[1:]:
                s |= deep_conds(k)
            r = frozenset(s)
        elif t.op in ('agg', 'rv'):
            s = EMPTY
            for a in t.args:
                if isinstance(a, T):
                    s = s | deep_conds(a)
            r = s
        else:
            r = EMPTY
        _dc[t] = r
    return r


def deep_cof(t, c, b):
    if t.op == 'ite':
        t2 = cof(t, c, b)
        if t2.op == 'ite':
            return t2
        return deep_cof(t2, c, b)
    if t.op in ('agg', 'rv'):
        if not deep_conds(t):
            return t
        return mk(t.op, *[deep_cof(a, c, b) if isinstance(a, T) else a for a in t.args])
    return t


builders['enum'] = lambda name, v, *f: enum(name, v, *f)


def _fnb(name, *xs):
    if name == 'sqrt':
        return sqrt(xs[0])
    return fn(name, *xs)


builders['fn'] = _fnb


def lift_leaves(f, t):
    """apply f at the leaves of decision diagram t"""
    if t.op == 'ite':
        key = ('LL', f, t)
        c = t.args[0]
        return mk_ite(c, [lift_leaves(f, k) for k in t.args[1:]])
    if t is BOT:
        return BOT
    return f(t)


# --------------------------------------------------------------------- sequences
def elem_like(sample, t, path=()):
    """a symbolic element shaped like sample, identified by term t"""
    op = sample.op
    if op == 'ite':
        ls = [k for k in sample.args[1:] if k is not BOT]
        # shape of the first scalar leaf
        return elem_like(ls[0], t, path)
    if op == 'agg':
        return mk('agg', sample.args[0], *[elem_like(x, t, path + (i,)) if isinstance(x, T) else x for i, x in enumerate(sample.args[1:])])
    if op == 'rv':
        return mk('rv', elem_like(sample.args[0], t, path))
    if op == 'rat':
        return atom(proj_(t, path) if path else t)
    if op in ('cat', 'unit', 'comp', 'flat', 'base', 'upd'):
        s = elem_sample(sample)
        return mk('base', proj_(t, path) if path else t, s)
    if op in ('true', 'false'):
        return b_atom('val', proj_(t, path) if path else t)
    return proj_(t, path) if path else t


def elem_sample(s):
    """some element-shaped term of sequence s (for its shape only)"""
    op = s.op
    if op == 'base':
        return s.args[1]
    if op == 'upd':
        return elem_sample(s.args[0])
    if op == 'unit':
        return shape(s.args[0])
    if op == 'comp':
        return shape(s.args[1].args[1])
    if op == 'flat':
        return elem_sample(s.args[1].args[1])
    if op == 'cat':
        for p in s.args:
            r = elem_sample(p)
            if r is not None and r is not NOSHAPE:
                return r
        return NOSHAPE
    if op == 'ite':
        for p in s.args[1:]:
            if p is not BOT:
                r = elem_sample(p)
                if r is not NOSHAPE:
                    return r
        return NOSHAPE
    return NOSHAPE


NOSHAPE = mk('shape', '?')
SH_R = const(0)


def shape(v):
    """canonical shape term of a value (scalars become 0)"""
    op = v.op
    if op == 'ite':
        for k in v.args[1:]:
            if k is not BOT:
                s = shape(k)
                if s is not NOSHAPE:
                    return s
        return NOSHAPE
    if op == 'agg':
        return mk('agg', v.args[0], *[shape(x) if isinstance(x, T) else x for x in v.args[1:]])
    if op == 'rv':
        return mk('rv', shape(v.args[0]))
    if op == 'rat':
        return SH_R
    if op in ('cat', 'unit', 'comp', 'flat', 'base', 'upd'):
        return mk('base', mk('shape', 's'), elem_sample(v))
    if op in ('true', 'false'):
        return FALSE
    return mk('shape', 'x')


def base(t, sample):
    return mk('base', t, sample)


def is_seq(t):
    return t.op in ('cat', 'unit', 'comp', 'flat', 'base', 'upd') or (t.op == 'ite' and any(is_seq(k) for k in t.args[1:] if k is not BOT))


NIL = mk('cat')


def unit(v):
    if v is BOT:
        return BOT
    if v.op == 'ite' or deep_conds(v):
        # hoist conditions
        best = min(deep_conds(v), key=ckey)
        return mk_ite(best, [unit(deep_cof(v, best, b)) for b in range(arity(best))])
    return mk('unit', v)


def cat(*parts):
    out = []
    for p in parts:
        if p is BOT:
            return BOT
        if p.op == 'ite':
            best = None
            for q in parts:
                if q.op == 'ite' and (best is None or ckey(q.args[0]) < ckey(best)):
                    best = q.args[0]
            return mk_ite(best, [cat(*[cof(q, best, b) for q in parts]) for b in range(arity(best))])
        if p.op == 'cat':
            out.extend(p.args)
        else:
            out.append(p)
    # merge adjacent string literals
    res = []
    for p in out:
        if res and p.op == 'unit' and res[-1].op == 'unit' and p.args[0].op == 'lit' and res[-1].args[0].op == 'lit':
            res[-1] = mk('unit', mk('lit', res[-1].args[0].args[0] + p.args[0].args[0]))
        elif p.op == 'unit' and p.args[0].op == 'lit' and p.args[0].args[0] == '':
            continue
        elif p.op == 'base' and len_hooks and length(p) is ZERO:
            continue
        else:
            res.append(p)
    res = _absorb(res)
    if len(res) == 1:
        return res[0]
    return mk('cat', *res)


def _absorb(res):
    """an element in front of or behind an arithmetic sequence that continues it belongs to it"""
    i = 0
    while i + 1 < len(res):
        a, b = res[i], res[i + 1]
        front = a.op == 'unit' and b.op == 'comp'
        if front or (a.op == 'comp' and b.op == 'unit'):
            c, u = (b, a) if front else (a, b)
            if u.args[0].op in ('rat', 'agg'):
                e = inst(c.args[1], const(-1) if front else c.args[0])
                if e is u.args[0]:
                    n = add(c.args[0], ONE)
                    w = fresh('n', ZERO, sub(n, ONE))
                    r = comp_v(n, w, inst(c.args[1], sub(atom(w), ONE) if front else atom(w)))
                    if r.op == 'comp':
                        res = res[:i] + [r] + res[i + 2:]
                        i = max(0, i - 1)
                        continue
        i += 1
    return res


def lit(s):
    return unit(mk('lit', s)) if s else NIL


builders['cat'] = cat
builders['unit'] = unit


def _hoist_free(body, v, mkf):
    """if body has top-level conditions not involving variable v, hoist them"""
    cs = [c for c in deep_conds(body) if v not in c.fv]
    if cs and len(cs) <= HOIST:
        c = min(cs, key=ckey)
        return mk_ite(c, [mkf(deep_cof(body, c, b)) for b in range(arity(c))])
    return None


HOIST = 7       # hoisting is exponential in the number of conditions


def comp(n, f, hint=None):
    """sequence of n elements f(i), f: python function on index term"""
    if n.op == 'ite':
        c = n.args[0]
        return mk_ite(c, [BOT if k is BOT else comp(k, f) for k in n.args[1:]])
    c = cval(n)
    if c is not None and c == int(c) and c <= 24:
        return cat(*[unit(f(const(i))) for i in range(max(0, int(c)))])
    v = fresh('n', ZERO, sub(n, ONE))
    return comp_v(n, v, f(atom(v)))


def comp_v(n, v, body):
    if body is BOT:
        return BOT
    c = cval(n)
    if c is not None and c == int(c) and c <= 24:
        return cat(*[unit(subst(body, {v: const(i)})) for i in range(max(0, int(c)))])
    h = _hoist_free(body, v, lambda b: comp_v(n, v, b))
    if h is not None:
        return h
    # eta: element i of an existing sequence
    e = _eta(n, v, body)
    if e is not None:
        return e
    return mk('comp', n, lam([v], body))


def _eta(n, v, body):
    cand = []

    def look(t, depth):
        if depth > 5 or len(cand) > 3:
            return
        if t.op == 'idx' and t.args[1].op == 'rat' and as_atom(t.args[1]) is v and v not in t.args[0].fv:
            cand.append(t)
        elif t.op == 'proj':
            look(t.args[0], depth + 1)
        elif t.op == 'rat':
            a = as_atom(t)
            if a is not None:
                look(a, depth + 1)
        elif t.op in ('agg', 'rv', 'base'):
            for x in t.args:
                if isinstance(x, T):
                    look(x, depth + 1)
                    if cand:
                        return
    look(body, 0)
    for t in cand:
        b = t.args[0]
        for kind in (mk('len', b),):
            if atom(kind) is n:
                if elem_like(shape(body), t) is body:
                    return mk('base', b, shape(body))
    return None


def _comp_b(n, l):
    bvs, body = l.args
    v = fresh('n', ZERO, sub(n, ONE) if n.op == 'rat' else None)
    if n.op == 'ite':
        c = n.args[0]
        return mk_ite(c, [BOT if k is BOT else _comp_b(k, l) for k in n.args[1:]])
    return comp_v(n, v, inst(l, atom(v)))


builders['comp'] = _comp_b


def flat(n, f):
    if n.op == 'ite':
        c = n.args[0]
        return mk_ite(c, [BOT if k is BOT else flat(k, f) for k in n.args[1:]])
    v = fresh('n', ZERO, sub(n, ONE))
    return flat_v(n, v, f(atom(v)))


def flat_v(n, v, body):
    if body is BOT:
        return BOT
    if body is NIL:
        return NIL
    c = cval(n)
    if c is not None and c == int(c) and c <= 24:
        return cat(*[subst(body, {v: const(i)}) for i in range(max(0, int(c)))])
    if body.op == 'ite':
        h = _hoist_free(body, v, lambda b: flat_v(n, v, b))
        if h is not None:
            return h
    if body.op == 'unit':
        return comp_v(n, v, body.args[0])
    # one-element sequences of any form
    return mk('flat', n, lam([v], body))


def _flat_b(n, l):
    if n.op == 'ite':
        c = n.args[0]
        return mk_ite(c, [BOT if k is BOT else _flat_b(k, l) for k in n.args[1:]])
    v = fresh('n', ZERO, sub(n, ONE))
    return flat_v(n, v, inst(l, atom(v)))


builders['flat'] = _flat_b


def _len_hook(t):
    return None


len_hooks = []


def length(s):
    op = s.op
    if op == 'ite':
        return mk_ite(s.args[0], [BOT if k is BOT else length(k) for k in s.args[1:]])
    if s is BOT:
        return BOT
    if op == 'cat':
        r = ZERO
        for p in s.args:
            r = add(r, length(p))
        return r
    if op == 'unit':
        return ONE
    if op == 'upd':
        return length(s.args[0])
    if op == 'comp':
        return s.args[0]
    if op == 'base':
        for h in len_hooks:
            r = h(s.args[0])
            if r is not None:
                return r
        return atom(mk('len', s.args[0]))
    if op == 'flat':
        n, l = s.args
        v = fresh('n', ZERO, sub(n, ONE))
        return sum_v(n, v, length(inst(l, atom(v))))
    raise NotScalar(s)


def _len_b(t):
    if t.op == 'rat':
        a = as_atom(t)
        t = a if a is not None else t
    if t.op in ('cat', 'unit', 'upd', 'comp', 'flat', 'base', 'ite'):
        return length(t)
    for h in len_hooks:
        r = h(t)
        if r is not None:
            return r
    return atom(mk('len', t))


builders['len'] = _len_b


def get(s, i):
    """element i of sequence s"""
    op = s.op
    if op == 'ite':
        return mk_ite(s.args[0], [BOT if k is BOT else get(k, i) for k in s.args[1:]])
    if s is BOT or i is BOT:
        return BOT
    if i.op == 'ite':
        return mk_ite(i.args[0], [BOT if k is BOT else get(s, k) for k in i.args[1:]])
    if op == 'unit':
        return s.args[0]
    if op == 'upd':
        return ite(int_eq(i, s.args[1]), s.args[2], get(s.args[0], i))
    if op == 'comp':
        return inst(s.args[1], i)
    if op == 'base':
        return elem_like(s.args[1], mk('idx', s.args[0], i))
    if op == 'cat':
        if not s.args:
            return BOT
        off = ZERO
        cases = []
        for p in s.args[:-1]:
            n = length(p)
            nx = add(off, n)
            cases.append((int_lt(i, nx), p, off))
            if cases[-1][0] is TRUE:
                break
            off = nx
        if cases and cases[-1][0] is TRUE:
            b, p, o = cases.pop()
            r = get(p, sub(i, o))
        else:
            r = get(s.args[-1], sub(i, off))
        for b, p, o in reversed(cases):
            if b is FALSE:
                continue
            r = ite(b, get(p, sub(i, o)), r)
        return r
    if op == 'flat':
        n, l = s.args
        v = fresh('n', ZERO, sub(n, ONE))
        body = inst(l, atom(v))
        m = length(body)
        if m.op == 'rat' and v not in m.fv:
            q, r = divmod_t(i, m, n)
            # bound the quotient/remainder
            return get(subst(body, {v: q}), r)
        return elem_like(elem_sample(s), mk('idx', s, i))
    raise NotScalar(s)


def _idx_b(t, i):
    """idx atom whose base has been rewritten"""
    if i.op == 'ite':
        return mk_ite(i.args[0], [BOT if k is BOT else _idx_b(t, k) for k in i.args[1:]])
    if t.op in ('rat',):
        a = as_atom(t)
        if a is not None:
            t = a
    if is_seq(t) and t.op != 'base':
        return get(t, i)
    return mk('idx', t, i)


builders['idx'] = _idx_b


def proj_(t, path):
    if t.op == 'ite':
        return mk_ite(t.args[0], [BOT if k is BOT else proj_(k, path) for k in t.args[1:]])
    if t is BOT:
        return BOT
    if not path:
        return t
    if t.op == 'rat':
        a = as_atom(t)
        if a is not None:
            t = a
    if t.op == 'proj':
        return mk('proj', t.args[0], t.args[1] + path)
    if t.op == 'agg':
        return proj_(t.args[1 + path[0]], path[1:])
    if t.op == 'rv':
        return proj_(t.args[0], path)
    return mk('proj', t, path)


builders['proj'] = proj_


def _base_b(t, sample):
    if t.op in ('cat', 'comp', 'flat', 'unit', 'base', 'upd'):
        return t
    if t.op == 'ite':
        return mk_ite(t.args[0], [BOT if k is BOT else _base_b(k, sample) for k in t.args[1:]])
    return mk('base', t, sample)


builders['base'] = _base_b


def museq(s):
    while s.op == 'upd':
        s = s.args[0]
    return s.op == 'base' and s.args[0].op == 'mu'


def setseq(s, i, v):
    """s with element i replaced by v"""
    if s is BOT or v is BOT or i is BOT:
        return BOT
    if s.op == 'ite':
        c = s.args[0]
        return mk_ite(c, [setseq(cof(k, c, b), cof(i, c, b), deep_cof(v, c, b)) for b, k in enumerate(s.args[1:])])
    if i.op == 'ite':
        c = i.args[0]
        return mk_ite(c, [setseq(s, k, deep_cof(v, c, b)) for b, k in enumerate(i.args[1:])])
    if museq(s):
        if s.op == 'upd' and s.args[1] is i:
            s = s.args[0]
        return mk('upd', s, i, v)
    ci = cval(i)
    if s.op == 'unit' and ci == 0:
        return unit(v)
    if s.op == 'cat' and ci is not None:
        parts = list(s.args)
        j = 0
        for p in parts:
            if p.op != 'unit':
                break
            if j == ci:
                parts[j] = unit(v)
                return cat(*parts)
            j += 1
    n = length(s)
    return comp(n, lambda j: ite(int_eq(j, i), v, get(s, j)))


builders['upd'] = setseq


def take_(s, n):
    return sub_(s, ZERO, n)


def _le(a, b):
    """is a <= b provable?"""
    d = sub(b, a)
    if d.op != 'rat' or d.args[1]:
        return False
    if not d.args[0]:
        return True
    l = plo(d.args[0])
    return l is not None and l >= 0


def sub_(s, a, n):
    """n elements of s from position a"""
    if s is BOT or a is BOT or n is BOT:
        return BOT
    for t in (s, a, n):
        if t.op == 'ite':
            c = min((x.args[0] for x in (s, a, n) if x.op == 'ite'), key=ckey)
            return mk_ite(c, [sub_(cof(s, c, b), cof(a, c, b), cof(n, c, b)) for b in range(arity(c))])
    if n is ZERO:
        return NIL
    ln = length(s)
    if a is ZERO and n is ln:
        return s
    if s.op == 'unit' and a is ZERO and n is ONE:
        return s
    if s.op == 'comp':
        return comp(n, lambda i: inst(s.args[1], add(a, i)))
    if s.op == 'cat':
        # drop whole leading / trailing parts when positions are decidable
        parts = list(s.args)
        off = a
        while parts:
            l = length(parts[0])
            if l.op == 'rat' and _le(l, off):
                off = sub(off, l)
                parts.pop(0)
            else:
                break
        end = add(off, n)
        # trailing
        tot = ZERO
        keep = []
        for p in parts:
            if tot.op == 'rat' and _le(end, tot):
                break
            keep.append(p)
            tot = add(tot, length(p))
        parts = keep
        if not parts:
            return NIL
        if len(parts) == 1:
            return sub_(parts[0], off, n)
        # clip the ends when they are decidable
        l0 = length(parts[0])
        ll = length(parts[-1])
        if tot.op == 'rat' and l0.op == 'rat' and ll.op == 'rat' and _le(off, l0) and _le(sub(tot, ll), end) and _le(end, tot):
            first_ = parts[0] if off is ZERO else sub_(parts[0], off, sub(l0, off))
            last_ = parts[-1] if tot is end else sub_(parts[-1], ZERO, sub(end, sub(tot, ll)))
            return cat(first_, *parts[1:-1], last_)
        s = mk('cat', *parts)
        a = off
    return comp(n, lambda i: get(s, add(a, i)))


def rev_(s):
    if s.op == 'ite':
        return mk_ite(s.args[0], [BOT if k is BOT else rev_(k) for k in s.args[1:]])
    if s.op == 'unit' or s is BOT:
        return s
    if s.op == 'cat':
        return cat(*[rev_(p) for p in reversed(s.args)])
    n = length(s)
    if s.op == 'flat' and s.args[0].op == 'rat':
        return flat(s.args[0], lambda i: rev_(inst(s.args[1], sub(sub(s.args[0], ONE), i))))
    return comp(n, lambda i: get(s, sub(sub(n, ONE), i)))


def map_(s, f):
    """elementwise f"""
    if s.op == 'ite':
        return mk_ite(s.args[0], [BOT if k is BOT else map_(k, f) for k in s.args[1:]])
    if s is BOT:
        return s
    if s.op == 'unit':
        return unit(f(s.args[0]))
    if s.op == 'cat':
        return cat(*[map_(p, f) for p in s.args])
    if s.op == 'flat':
        return flat(s.args[0], lambda i: map_(inst(s.args[1], i), f))
    return comp(length(s), lambda i: f(get(s, i)))


def fmap_(s, f):
    """concatenation of f(x) over the elements"""
    if s.op == 'ite':
        return mk_ite(s.args[0], [BOT if k is BOT else fmap_(k, f) for k in s.args[1:]])
    if s is BOT:
        return s
    if s.op == 'unit':
        return f(s.args[0])
    if s.op == 'cat':
        return cat(*[fmap_(p, f) for p in s.args])
    if s.op == 'flat':
        return flat(s.args[0], lambda i: fmap_(inst(s.args[1], i), f))
    return flat(length(s), lambda i: f(get(s, i)))


INF = atom(mk('sym', 'inf'))


def max0(a):
    return ite(int_pos(a), a, ZERO)


def tmin(a, b):
    if a is INF:
        return b
    if b is INF:
        return a
    return ite(int_lt(b, a), b, a)


def tmax(a, b):
    return ite(int_lt(a, b), b, a)


# ------------------------------------------------------------------- div / mod
def _divmod(i, m, n=None):
    i, m = _as_scalar(i), _as_scalar(m)
    if m is ONE:
        return i, ZERO
    ci, cm = cval(i), cval(m)
    if ci is not None and cm:
        return const(ci // cm), const(ci % cm)
    if not i.args[1] and not m.args[1] and m.args[0]:
        q, r = pdivmod(i.args[0], m.args[0])
        if q is not None:
            # integral quotient and remainder in [0, m)
            if all(Fraction(c).denominator == 1 for _, c in q):
                rr, qq = _mk_rat(r, {}), _mk_rat(q, {})
                for adj in (0, 1, -1):
                    r2 = add(rr, mul(const(adj), m))
                    lo = plo(r2.args[0]) if r2.args[0] else 0
                    up = sub(sub(m, ONE), r2)
                    hi = plo(up.args[0]) if up.args[0] else 0
                    if lo is not None and lo >= 0 and hi is not None and hi >= 0:
                        return sub(qq, const(adj)), r2
    if div_exact is not None:
        r = div_exact(i, m)
        if r is not None:
            return r
    q = atom(mk('div', i, m))
    _mods[0] = True
    return q, atom(mk('mod', i, m))


div_exact = None


def divmod_t(i, m, n=None):
    return (_lift('div', lambda a, b: _divmod(a, b)[0], i, m), _lift('mod', lambda a, b: _divmod(a, b)[1], i, m))


builders['div'] = lambda i, m: divmod_t(i, m)[0]
builders['mod'] = lambda i, m: divmod_t(i, m)[1]


# ------------------------------------------------------------------------ sums
def sum_(n, f):
    v = fresh('n', ZERO, sub(n, ONE) if n.op == 'rat' else None)
    return sum_v(n, v, f(atom(v)))


def sum_v(n, v, body):
    if n.op == 'ite':
        c = n.args[0]
        return mk_ite(c, [BOT if k is BOT else sum_v(k, v, body) for k in n.args[1:]])
    if body is BOT:
        return BOT
    if body is ZERO:
        return ZERO
    c = cval(n)
    if c is not None and c == int(c) and 0 <= c <= 12:
        r = ZERO
        for i in range(int(c)):
            r = add(r, subst(body, {v: const(i)}))
        return r
    if body.op == 'ite':
        h = _hoist_free(body, v, lambda b: sum_v(n, v, b))
        if h is not None:
            return h
        k, rest = _extract_ite(body, v)
        return mul(k, _sum_atom(n, v, rest))
    if body.op != 'rat':
        body = _as_scalar(body)
    num, den = body.args
    dfree = {f: e for f, e in den if v not in _pfv(f)}
    dbound = {f: e for f, e in den if v in _pfv(f)}
    r = ZERO
    groups = {}
    for m, c in num:
        out = tuple((a, e) for a, e in m if v not in a.fv)
        inn = tuple((a, e) for a, e in m if v in a.fv)
        if dbound:
            groups.setdefault(out, {})
            groups[out][inn] = groups[out].get(inn, 0) + c
        else:
            groups.setdefault((out, inn), {})
            groups[(out, inn)][inn] = groups[(out, inn)].get(inn, 0) + c
    for g, inner in groups.items():
        out = g if dbound else g[0]
        p = pnorm(inner)
        if not p:
            continue
        lc = p[0][1]
        b = _mk_rat(pscale(p, Fraction(1) / lc), dbound)
        k = _mk_rat(((out, lc),), {})
        if b is ONE:
            s = n
        elif as_atom(b) is v:
            s = mul(const(Fraction(1, 2)), mul(n, sub(n, ONE)))
        else:
            s = _sum_atom(n, v, b)
        r = add(r, mul(k, s))
    if dfree:
        r = mul(r, _mk_rat(PONE, dfree))
    return r


def _pfv(p):
    s = set()
    for m, _ in p:
        for a, _e in m:
            s |= a.fv
    return s


def _extract_ite(body, v):
    leaves = []

    def walk(t):
        if t.op == 'ite':
            for k in t.args[1:]:
                walk(k)
        elif t is not BOT:
            leaves.append(t)
    walk(body)
    com = None
    lc = None
    for l in leaves:
        if l is ZERO:
            continue
        if l.op != 'rat':
            return ONE, body
        m = dict((a, e) for a, e in pcontent(l.args[0]) if v not in a.fv)
        if com is None:
            com = m
            lc = l.args[0][0][1]
        else:
            com = {a: min(e, m[a]) for a, e in com.items() if a in m}
    if not com and (lc in (None, 1)):
        return ONE, body
    if len([l for l in leaves if l is not ZERO]) > 1:
        lc = 1
    k = _mk_rat(((tuple(sorted(com.items(), key=lambda ae: ae[0].h)), lc),), {})
    return k, div(body, k)


def _sum_atom(n, v, b):
    """Sum_{v<n} b, canonical order for nested independent sums"""
    s = mk('sum', n, lam([v], b))
    # try to interchange with an inner sum whose range does not depend on v
    if b.op == 'rat' and not b.args[1] and len(b.args[0]) == 1:
        m, c = b.args[0][0]
        for a, e in m:
            if a.op == 'sum' and e == 1 and v not in a.args[0].fv:
                n2, l2 = a.args
                w = fresh('n', ZERO, sub(n2, ONE) if n2.op == 'rat' else None)
                inner = inst(l2, atom(w))
                rest = _mk_rat(((tuple((x, y) for x, y in m if x is not a), c),), {})
                prod = mul(rest, inner)
                # Sum_w Sum_v prod
                if prod.op == 'rat' and not prod.args[1] and len(prod.args[0]) == 1:
                    mm, cc = prod.args[0][0]
                    out = tuple((x, y) for x, y in mm if v not in x.fv)
                    inn = tuple((x, y) for x, y in mm if v in x.fv)
                    ib = _mk_rat(((inn, 1),), {})
                    isum = n if ib is ONE else atom(mk('sum', n, lam([v], ib)))
                    body2 = mul(_mk_rat(((out, cc),), {}), isum)
                    s2 = mk('sum', n2, lam([w], body2))
                    if s2.h < s.h:
                        return atom(s2)
    return atom(s)


def _sum_b(n, l):
    v = fresh('n', ZERO, sub(n, ONE) if n.op == 'rat' else None)
    return sum_v(n, v, inst(l, atom(v)))


builders['sum'] = _sum_b


# ------------------------------------------------------- first / search index
def first(n, f):
    """least i < n with f(i), or n"""
    v = fresh('n', ZERO, sub(n, ONE) if n.op == 'rat' else None)
    return first_v(n, v, f(atom(v)))


def first_v(n, v, b):
    if n.op == 'ite':
        return mk_ite(n.args[0], [BOT if k is BOT else first_v(k, v, b) for k in n.args[1:]])
    if b is FALSE:
        return n
    if b is TRUE:
        return ZERO
    for c in sorted(conds_of(b), key=ckey):
        if v not in c.fv:
            return mk_ite(c, [first_v(n, v, cof(b, c, j)) for j in range(arity(c))])
    # thresholds on the index itself
    for c in sorted(conds_of(b), key=ckey):
        if c.op not in ('c_pos', 'c_eq') or c.args[0].args[1]:
            continue
        r = _lin(c.args[0].args[0], v)
        if r is None:
            continue
        co, rest = r
        if not co or not pis_const(co) or any(v in x.fv for x in patoms(rest)):
            continue
        a = pconst_val(co)
        R = _mk_rat(rest, {})
        if c.op == 'c_pos':
            if a < 0:   # true iff v < A
                A = R if a == -1 else divmod_t(add(R, const(-a - 1)), const(-a))[0]
                low, high = cof(b, c, 1), cof(b, c, 0)
            else:       # true iff v >= A
                A = sub(ONE, R) if a == 1 else add(divmod_t(neg(R), const(a))[0], ONE)
                low, high = cof(b, c, 0), cof(b, c, 1)
            A = max0(A)
            if high is TRUE:
                return lift_leaves(lambda m: m if low is FALSE else first_v(m, v, low), tmin(n, A))
            if high is FALSE:
                return lift_leaves(lambda A_: first_lim(n, A_, v, low), A)
            if low is FALSE and high is not FALSE:
                continue
        elif abs(a) == 1:
            A = mul(const(-1 / Fraction(a)), R)
            if cof(b, c, 0) is FALSE and cof(b, c, 1) is TRUE:
                return ite(b_and(int_le(ZERO, A), int_lt(A, n) if n is not INF else TRUE), A, n)
    return _first_atom(n, lam([v], b))


def first_lim(n, A, v, low):
    """first below A, else n"""
    r = first_v(A, v, low)
    if n is A:
        return r
    return ite(int_lt(r, A), r, n)


def _lin(p, a):
    co, rest = [], []
    for m, c in p:
        es = dict(m)
        if a in es:
            if es[a] != 1:
                return None
            co.append((tuple(x for x in m if x[0] is not a), c))
        else:
            rest.append((m, c))
        for x, _ in m:
            if x is not a and a in x.fv:
                return None
    return pnorm(dict(co)), pnorm(dict(rest))


def _first_atom(n, l):
    a = mk('first', n, l)
    facts.hi.setdefault(a, n)
    return atom(a)


def _first_b(n, l):
    v = fresh('n', ZERO, sub(n, ONE) if n.op == 'rat' else None)
    return first_v(n, v, inst(l, atom(v)))


builders['first'] = _first_b


def last_v(n, v, b):
    """number of elements up to and including the last i<n with b(i): 0 when none"""
    w = fresh('n', ZERO, sub(n, ONE) if n.op == 'rat' else None)
    rb = subst(b, {v: sub(sub(n, ONE), atom(w))})
    return sub(n, first_v(n, w, rb))


# ---------------------------------------------------------------------- debug
def pshow(p):
    if not p:
        return '0'
    out = []
    for m, c in p:
        s = '*'.join((show(a) + ('^%d' % e if e != 1 else '')) for a, e in m)
        if not m:
            s = str(c)
        elif c != 1:
            s = ('-' if c == -1 else str(c) + '*') + s
        out.append(s)
    return ' + '.join(out)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '.'.join(show(x) for x in t)
        return str(t)
    if d > 40:
        return '…'
    op, a = t.op, t.args
    if op == 'rat':
        s = pshow(a[0])
        if a[1]:
            s = '(' + s + ')/' + '/'.join('(' + pshow(f) + ')' + ('^%d' % e if e > 1 else '') for f, e in a[1])
        return s if len(a[0]) <= 1 and not a[1] else '(' + s + ')'
    if op == 'sym':
        return str(a[0])
    if op == 'fv':
        return 'v%d' % a[0]
    if op == 'mu':
        return 'mu%s' % (a[0],)
    if op == 'bv':
        return 'b%d%s' % (a[0], ('' if a[1] == 0 else "'" * a[1]))
    if op == 'ite':
        c = a[0]
        ks = ', '.join(show(x) for x in a[1:])
        return '{%s ? %s}' % (show(c), ks)
    if op == 'c_pos':
        return show(a[0]) + '>0'
    if op == 'c_sgn':
        return 'sgn' + show(a[0])
    if op == 'c_eq':
        return show(a[0]) + '==0'
    if op == 'lam':
        return '\\' + ','.join(show(x) for x in a[0]) + '. ' + show(a[1])
    if op == 'idx':
        return '%s[%s]' % (show(a[0]), show(a[1]))
    if op == 'proj':
        return '%s.%s' % (show(a[0]), '.'.join(map(str, a[1])))
    if op == 'len':
        return '#' + show(a[0])
    if op == 'base':
        return '<%s>' % show(a[0])
    if op == 'unit':
        return '[%s]' % show(a[0])
    if op == 'cat':
        return '[' + ' ++ '.join(show(x) for x in a) + ']'
    if op == 'comp':
        return '[for %s: %s]' % (show(a[0]), show(a[1]))
    if op == 'flat':
        return '[flat %s: %s]' % (show(a[0]), show(a[1]))
    if op == 'sum':
        return 'Sum(%s: %s)' % (show(a[0]), show(a[1]))
    if op == 'lit':
        return repr(a[0])
    if op == 'rv':
        return '&' + show(a[0])
    if op == 'agg':
        return '%s{%s}' % (str(a[0]).split('::')[-1], ', '.join(show(x) for x in a[1:]))
    if op == 'enum':
        return '%s#%s(%s)' % (str(a[0]).split('::')[-1], a[1], ', '.join(show(x) for x in a[2:]))
    return '%s(%s)' % (op if op not in ('fn', 'app') else a[0], ', '.join(show(x) for x in (a if op not in ('fn', 'app') else a[1:])))
