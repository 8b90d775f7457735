"""Transfer functions for the library operations the crate (or an edit of it) uses.

Each entry maps a resolved callee path to its effect on value graphs.  Anything not
listed becomes a marked opaque term, which keeps comparisons undecided.
"""
import struct
from fractions import Fraction
from term import *
import term as T_
import loops

FNREFS = {}
INTS = {'u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'u128', 'i128'}
OPT, RES, CF, ORD = 'std::option::Option', 'std::result::Result', 'std::ops::ControlFlow', 'std::cmp::Ordering'
FMAX = atom(mk('sym', 'fmax'))
NAN = atom(mk('sym', 'nan'))
UNIT = agg('tuple')


def vec(*xs):
    return agg('vec', *xs)


CONSTS = {}
for _p, _n in (('DVec2', 2), ('DVec3', 3), ('DVec4', 4)):
    CONSTS['glam::%s::ZERO' % _p] = vec(*[ZERO] * _n)
    CONSTS['glam::%s::ONE' % _p] = vec(*[ONE] * _n)
    for _i, _a in enumerate('XYZW'[:_n]):
        CONSTS['glam::%s::%s' % (_p, _a)] = vec(*[ONE if _j == _i else ZERO for _j in range(_n)])
CONSTS['glam::DMat2::IDENTITY'] = agg('mat2', vec(ONE, ZERO), vec(ZERO, ONE))
CONSTS['glam::DQuat::IDENTITY'] = agg('rot', vec(ZERO, ZERO, ONE), ZERO)


def U(m):
    from interp import Unsupported
    return Unsupported(m)


def none():
    return enum(OPT, 0)


def some(v):
    return enum(OPT, 1, v)


def ok(v):
    return enum(RES, 0, v)


def order(lt, eq):
    return ite(lt, enum(ORD, 0), ite(eq, enum(ORD, 1), enum(ORD, 2)))


def sgn_order(d):
    return sgn3(d, enum(ORD, 0), enum(ORD, 1), enum(ORD, 2))


# ------------------------------------------------------------------- utilities
class Ctx:
    def __init__(self, ip, fnref, path, args, st, dty, atys):
        self.ip, self.fnref, self.path, self.a, self.st, self.dty, self.atys = ip, fnref, path, args, st, dty, atys

    def v(self, i):
        """argument i, references stripped"""
        return self.ip.deref(self.st, self.a[i])

    def aty(self, i):
        """type of argument i with references stripped"""
        ti = self.atys[i] if i < len(self.atys) else None
        while ti is not None and self.ip.ty(ti)['k'] in ('ref', 'ptr'):
            ti = self.ip.ty(ti)['t']
        return self.ip.ty(ti) if ti is not None else None

    def prim(self, i):
        t = self.aty(i)
        return t['s'] if t and t['k'] == 'prim' else None

    def adt(self, i):
        t = self.aty(i)
        return t['n'] if t and t['k'] == 'adt' else None

    def gty(self, i):
        g = self.fnref.get('args') or []
        return self.ip.ty(g[i]) if i < len(g) else None

    def target(self, i):
        """innermost mutable location of argument i"""
        return inner_ref(self.ip, self.st, self.a[i])

    def set(self, i, val):
        self.ip.write(self.st, self.target(i), val)


def inner_ref(ip, st, r):
    for _ in range(8):
        if r.op == 'ref':
            v = ip.read(st, r)
            if v.op == 'ref':
                r = v
                continue
            return r
        if r.op == 'ite' and all(x.op == 'ref' for x, _ in ip.leaves(r) if x is not BOT):
            return r
        if r.op == 'rv':
            r = r.args[0]
            continue
        break
    raise U('mutation through %s' % r.op)


def strip(ip, st, v):
    return ip.deref(st, v)


def gen_args(ip, fnref):
    out = []
    for a in fnref.get('args') or []:
        t = ip.ty(a)
        out.append(t.get('n') or t.get('s') or '?')
    return '<' + ','.join(out) + '>'


def is_enumish(v):
    return any(x.op == 'enum' for x in loops.leaves(v))


def expand(ip, v, ti, name):
    """give an opaque Option/Result its variants explicitly"""
    ty = ip.ty(ti) if ti is not None else None

    def leaf(x):
        if x.op == 'enum':
            return x
        if x.op == 'rat':
            a = as_atom(x)
            if a is None:
                raise U('variant of scalar')
            x = a
        if x.op in ('agg', 'cat', 'comp', 'unit', 'base', 'rv', 'ref'):
            raise U('variant of ' + x.op)
        if name == OPT:
            return ite(variant_cond(x, 1), some(payload(ip, x, 1, ty, 0)), none())
        return ite(variant_cond(x, 1), enum(RES, 1, proj_(mk('dc', x, 1), (0,))), ok(payload(ip, x, 0, ty, 0)))
    return lift_leaves(leaf, v)


def payload(ip, x, var, ty, gi):
    t = proj_(mk('dc', x, var), (0,))
    if ty is not None and ty['k'] == 'adt' and ty.get('a') and len(ty['a']) > gi:
        return ip.havoc(ty['a'][gi], t)
    return t


def which(v, i):
    """boolean: leaf variant is i"""
    return lift_leaves(lambda x: TRUE if x.args[1] == i else FALSE, v)


def pay(v, i, j=0):
    return lift_leaves(lambda x: x.args[2 + j] if x.args[1] == i and len(x.args) > 2 + j else BOT, v)


def cond_apply(ip, g, f, args, st):
    """result of f(args) where g holds (effects gated by g)"""
    if g is FALSE or g is BOT or any(a is BOT for a in args):
        return BOT
    from interp import Diverges
    s1 = dict(st)
    try:
        r = ip.apply(f, args, s1)
    except Diverges:
        return BOT
    for k, v in s1.items():
        if k in st and st[k] is not v:
            st[k] = ite(g, v, st[k])
        elif k not in st:
            st[k] = v
    return r


# ------------------------------------------------------------------- iterators
def It(seq):
    return agg('It', seq, ZERO, length(seq))


def is_it(v):
    return v.op == 'agg' and v.args[0] == 'It'


def rest(it):
    s, p, e = it.args[1:]
    if p is ZERO and e is length(s):
        return s
    return sub_(s, p, sub(e, p))


def rng(a, b):
    return It(comp(max0(sub(b, a)), lambda i: add(a, i)))


def last_name(s):
    return s.split('::')[-1]


def to_it(ip, st, v, byref=False):
    """iterator over a collection value / reference / range"""
    if v is BOT:
        return BOT
    if v.op == 'rv':
        inner = v.args[0]
        if is_it(inner):
            return inner
        return to_it(ip, st, inner, True)
    if v.op == 'ref':
        inner = ip.read(st, v)
        if inner.op in ('ref', 'rv'):
            return to_it(ip, st, inner, byref)
        if is_it(inner):
            return inner
        if inner.op == 'agg' and last_name(str(inner.args[0])) in RANGES:
            return to_it(ip, st, inner)
        n = length(seq_of(inner))
        r = v
        if inner.op == 'agg' and inner.args[0] == 'grid':
            r = mk('ref', v.args[0], v.args[1] + (('f', 0, None),))
        return It(comp(n, lambda i: mk('ref', r.args[0], r.args[1] + (('i', i),))))
    if is_it(v):
        return v
    if v.op == 'ite' and not is_seq(v):
        return mk_ite(v.args[0], [BOT if k is BOT else to_it(ip, st, k, byref) for k in v.args[1:]])
    if v.op == 'agg':
        n = last_name(str(v.args[0]))
        if n == 'Range':
            return rng(v.args[1], v.args[2])
        if n == 'RangeInclusive':
            return rng(v.args[1], add(v.args[2], ONE))
        if n == 'RangeFrom':
            return It(comp(INF, lambda i: add(v.args[1], i)))
        if n == 'grid':
            v = v.args[1]
    if v.op == 'enum' and v.args[0] in (OPT, RES):
        has = 1 if v.args[0] == OPT else 0
        s = unit(v.args[2]) if v.args[1] == has else NIL
        return It(map_(s, lambda e: mk('rv', e)) if byref else s)
    if is_seq(v):
        return It(map_(v, lambda e: mk('rv', e)) if byref else v)
    # opaque collection
    if v.op == 'rat':
        v = as_atom(v) or v
    return It(base(mk('app', 'iter', v), mk('shape', 'x')))


RANGES = ('Range', 'RangeInclusive', 'RangeFrom')


def seq_of(v):
    if v.op == 'agg' and v.args[0] == 'grid':
        return v.args[1]
    if v.op == 'ite' and not is_seq(v):
        return mk_ite(v.args[0], [BOT if k is BOT else seq_of(k) for k in v.args[1:]])
    if v is BOT:
        return v
    if not is_seq(v):
        raise U('sequence expected, got ' + v.op)
    return v


def keys_changed(a, b):
    return [k for k in b if k in a and a[k] is not b[k]]


def run_pure(ip, st, f, args):
    """apply f; second result is None when no state changed"""
    s1 = dict(st)
    r = ip.apply(f, args, s1)
    ch = keys_changed(st, s1)
    return r, (s1 if ch else None)


class Effect(Exception):
    pass


def mapper(ip, st, f, pre=lambda e: [e]):
    from interp import Diverges

    def g(e):
        if e is BOT:
            return BOT
        try:
            r, s1 = run_pure(ip, st, f, pre(e))
        except Diverges:
            return BOT
        if s1 is not None:
            raise Effect()
        return r
    return g


def seq_map(ip, st, f, s, pre=lambda e: [e]):
    try:
        return map_(s, mapper(ip, st, f, pre))
    except Effect:
        return synth(ip, st, s, lambda e, st2: unit(ip.apply(f, pre(e), st2)))


def seq_fmap(ip, st, f, s, post, pre=lambda e: [e]):
    m = mapper(ip, st, f, pre)
    try:
        return fmap_(s, lambda e: post(m(e), e))
    except Effect:
        return synth(ip, st, s, lambda e, st2: post(ip.apply(f, pre(e), st2), e))


def synth(ip, st, s, step):
    """loop over s whose body has effects; returns the sequence of produced parts"""
    es = s.args if s.op == 'cat' else (s,)
    if len(es) <= 16 and all(e.op == 'unit' for e in es):
        rs = [step(e.args[0], st) for e in es]
        return cat(*[r for r in rs if r is not None])
    ip.fid += 1
    acc, idx = 'syn%d.a' % ip.fid, 'syn%d.i' % ip.fid
    st[acc] = NIL
    st[idx] = ZERO
    n = length(s)

    def run(s0):
        s1 = dict(s0)
        g = int_lt(s0[idx], n)
        back = []
        if g is not FALSE:
            e = get(s, s0[idx])
            r = step(e, s1)
            if r is not None:
                s1[acc] = cat(s1[acc], r)
            s1[idx] = add(s0[idx], ONE)
            back.append((g, s1))
        return back, [('X', b_not(g), dict(s0))]
    outs = loops.solve(ip, run, dict(st), where=('synthetic', None))
    if not outs:
        raise U('synthetic loop')
    g, s2 = ip.merge([(g, s) for _, g, s in outs])
    st.clear()
    st.update(s2)
    r = st.pop(acc)
    st.pop(idx)
    return r


def opt_first(n, i, v):
    return ite(int_lt(i, n), some(v), none())


def it_next(ip, st, r, back=False):
    t = inner_ref(ip, st, r)
    it = ip.read(st, t)
    if it.op == 'agg' and last_name(str(it.args[0])) in RANGES:
        it = to_it(ip, st, it)
    if it.op == 'ite' or not is_it(it):
        if it.op == 'agg' and it.args[0] != 'It':
            return None
        it = to_it(ip, st, it)
        if not is_it(it):
            raise U('next on ' + it.op)
    s, p, e = it.args[1:]
    c = int_lt(p, e)
    if c is FALSE:
        return none()
    v = get(s, sub(e, ONE) if back else p)
    ip.write(st, t, agg('It', s, p if back else ite(c, add(p, ONE), p), ite(c, sub(e, ONE), e) if back else e))
    return ite(c, some(v), none())


def sum_seq(ip, s):
    """sum of a sequence of scalars / vectors"""
    if s.op == 'ite':
        return mk_ite(s.args[0], [BOT if k is BOT else sum_seq(ip, k) for k in s.args[1:]])
    if s.op == 'unit':
        return ip.deref({}, s.args[0])
    if s.op == 'cat':
        r = ZERO
        for p in s.args:
            r = vadd(r, sum_seq(ip, p))
        return r
    if s.op == 'flat':
        n, l = s.args
        return vsum(n, lambda i: sum_seq(ip, inst(l, i)))
    return vsum(length(s), lambda i: ip.deref({}, get(s, i)))


def vsum(n, f):
    v = fresh('n', ZERO, sub(n, ONE) if n.op == 'rat' else None)
    b = f(atom(v))
    if b.op == 'agg':
        return agg(b.args[0], *[sum_v(n, v, x) for x in b.args[1:]])
    return sum_v(n, v, b)


# --------------------------------------------------------------- linear algebra
def is_vec(v):
    return v.op == 'agg' and v.args[0] == 'vec'


def comps(v):
    if not is_vec(v):
        raise U('vector expected, got ' + (v.op if v.op != 'agg' else str(v.args[0])))
    return v.args[1:]


def vmap(f, *vs):
    return vec(*[f(*xs) for xs in zip(*[comps(v) for v in vs])])


def vadd(a, b):
    if is_vec(a) and is_vec(b):
        return vmap(add, a, b)
    if is_vec(a) or is_vec(b):
        x, y = (a, b) if is_vec(a) else (b, a)
        if y is ZERO:
            return x
        return vmap(lambda c: add(c, y), x)
    return add(a, b)


def vmul(a, b):
    if is_vec(a) and is_vec(b):
        return vmap(mul, a, b)
    if is_vec(a):
        return vmap(lambda x: mul(x, b), a)
    if is_vec(b):
        return vmap(lambda x: mul(a, x), b)
    return mul(a, b)


def dot(a, b):
    r = ZERO
    for x, y in zip(comps(a), comps(b)):
        r = add(r, mul(x, y))
    return r


def cross(a, b):
    ax, ay, az = comps(a)
    bx, by, bz = comps(b)
    return vec(sub(mul(ay, bz), mul(az, by)), sub(mul(az, bx), mul(ax, bz)), sub(mul(ax, by), mul(ay, bx)))


def vsub(a, b):
    return vmap(sub, a, b)


def norm(a):
    return sqrt(dot(a, a))


def normalize(a):
    k = inv(norm(a))
    return vmap(lambda x: mul(x, k), a)


def rotate(r, v):
    n, th = r.args[1:]
    s, c = fn('sin', th), fn('cos', th)
    n2 = dot(n, n)
    half = const(Fraction(1, 2))
    k1 = sub(mul(half, add(ONE, c)), mul(mul(half, sub(ONE, c)), n2))
    k2 = mul(sub(ONE, c), dot(n, v))
    return vadd(vadd(vmul(v, k1), vmul(n, k2)), vmul(cross(n, v), s))


def binary(name, a, b, isf):
    """Add/Sub/Mul/Div/Rem on scalars, vectors, matrices, rotations"""
    if a is BOT or b is BOT:
        return BOT
    ma, mb = a.op == 'agg' and a.args[0] or None, b.op == 'agg' and b.args[0] or None
    if ma == 'rot' and name == 'mul' and mb == 'vec':
        return rotate(a, b)
    if ma == 'mat2':
        c0, c1 = a.args[1:]
        if name == 'mul' and mb == 'vec':
            x, y = comps(b)
            return vadd(vmul(c0, x), vmul(c1, y))
        if name == 'mul' and mb == 'mat2':
            return agg('mat2', *[binary('mul', a, c, True) for c in b.args[1:]])
        if name == 'mul':
            return agg('mat2', vmul(c0, b), vmul(c1, b))
    if ma == 'vec' or mb == 'vec':
        if name == 'add':
            return vadd(a, b)
        if name == 'sub':
            if ma == 'vec' and mb == 'vec':
                return vsub(a, b)
            return vadd(a, vmul(b, const(-1)))
        if name == 'mul':
            return vmul(a, b)
        if name == 'div':
            if mb == 'vec':
                return vmap(div, a, b) if ma == 'vec' else vmap(lambda x: div(a, x), b)
            return vmap(lambda x: div(x, b), a)
        raise U('vector ' + name)
    if ma or mb:
        raise U('operator %s on %s' % (name, ma or mb))
    if name == 'add':
        return add(a, b)
    if name == 'sub':
        return sub(a, b)
    if name == 'mul':
        return mul(a, b)
    if name == 'div':
        return div(a, b) if isf else divmod_t(a, b)[0]
    if name == 'rem':
        return fn('fmod', a, b) if isf else divmod_t(a, b)[1]
    raise U('operator ' + name)


def absv(x):
    return sgn3(x, neg(x), ZERO, x)


def fmin(a, b):
    return sgn3(sub(a, b), a, a, b)


def fmax_(a, b):
    return sgn3(sub(a, b), b, b, a)


def clampf(x, lo, hi):
    return ite(real_lt(x, lo), lo, ite(real_lt(hi, x), hi, x))


def powi(x, n):
    c = cval(n)
    if c is None or c != int(c) or abs(c) > 12:
        return fn('powi', x, n)
    r = ONE
    for _ in range(abs(int(c))):
        r = mul(r, x)
    return r if c >= 0 else inv(r)


def rem_euclid_f(x, m):
    def one(x_, m_):
        if x_.op == 'rat' and not x_.args[1] and m_.op == 'rat':
            for k in (0, 1, -1, 2, -2):
                w = add(x_, mul(const(k), m_))
                if w.args[1]:
                    break
                lo = T_.plo(w.args[0]) if w.args[0] else 0
                d = sub(m_, w)
                hi = T_.plo(d.args[0]) if d.args[0] else 0
                if lo is not None and lo >= 0 and hi is not None and hi > 0:
                    return w
            # within [-m, m): one conditional shift
            lo = T_.plo(add(x_, m_).args[0])
            hi = T_.plo(sub(m_, x_).args[0])
            if lo is not None and lo >= 0 and hi is not None and hi > 0:
                return sgn3(x_, add(x_, m_), x_, x_)
        return atom(mk('fn', 'fmodeuc', x_, m_))
    return T_._lift('fmodeuc', one, x, m)


# --------------------------------------------------------------------- strings
def str_of(v):
    """token sequence of a string value"""
    if is_seq(v) or v is BOT:
        return v
    if v.op == 'ite':
        return mk_ite(v.args[0], [str_of(k) for k in v.args[1:]])
    return base(v if v.op != 'rat' else (as_atom(v) or v), mk('shape', 'x'))


def fmt_token(kind, spec, v):
    if v.op == 'ite' and not is_seq(v):
        return mk_ite(v.args[0], [BOT if k is BOT else fmt_token(kind, spec, k) for k in v.args[1:]])
    if kind == 'display' and spec == () and is_seq(v):
        return v
    if v.op == 'ite':
        return mk_ite(v.args[0], [BOT if k is BOT else fmt_token(kind, spec, k) for k in v.args[1:]])
    c = cval(v) if v.op == 'rat' else None
    if kind == 'display' and spec == () and c is not None and c == int(c):
        return unit(mk('lit', str(int(c))))
    return unit(mk('fmt', kind, spec, v))


def _fmt_b(kind, spec, v):
    c = cval(v) if v.op == 'rat' and kind == 'display' and spec == () else None
    if c is not None and c == int(c):
        return mk('lit', str(int(c)))
    if v.op == 'ite':
        return mk_ite(v.args[0], [BOT if k is BOT else _fmt_b(kind, spec, k) for k in v.args[1:]])
    return mk('fmt', kind, spec, v)


builders['fmt'] = _fmt_b


def le_token(ty, v):
    if v.op == 'ite':
        return mk_ite(v.args[0], [BOT if k is BOT else le_token(ty, k) for k in v.args[1:]])
    c = cval(v) if v.op == 'rat' else None
    if c is not None:
        raw = le_bytes(ty, c)
        if raw is not None:
            return cat(*[unit(const(b)) for b in raw])
    return unit(mk('le', ty, v))


LE = {'u8': 'B', 'i8': 'b', 'u16': 'H', 'i16': 'h', 'u32': 'I', 'i32': 'i', 'u64': 'Q', 'usize': 'Q', 'i64': 'q', 'isize': 'q', 'f32': 'f', 'f64': 'd'}


def le_bytes(ty, c):
    f = LE.get(ty)
    try:
        return struct.pack('<' + f, float(c) if f in 'fd' else int(c)) if f else None
    except (struct.error, OverflowError):
        return None


def _le_b(ty, v):
    if v.op == 'ite':
        return mk_ite(v.args[0], [BOT if k is BOT else _le_b(ty, k) for k in v.args[1:]])
    return mk('le', ty, v)


builders['le'] = _le_b


def bytes_of(seq):
    out = []
    for p in (seq.args if seq.op == 'cat' else [seq]):
        if p.op == 'comp' and cval(p.args[0]) is not None:
            for i in range(int(cval(p.args[0]))):
                out.append(int(cval(inst(p.args[1], const(i)))))
            continue
        if p.op != 'unit':
            raise U('format template')
        out.append(int(cval(p.args[0])))
    return bytes(out)


def parse_template(raw, args):
    i = 0
    out = []
    nxt = 0
    while i < len(raw):
        b = raw[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(lit(raw[i:i + b].decode('utf8', 'replace')))
            i += b
        elif b == 0x80:
            n = raw[i] | raw[i + 1] << 8
            i += 2
            out.append(lit(raw[i:i + n].decode('utf8', 'replace')))
            i += n
        else:
            fl = w = pr = 0
            if b & 1:
                fl = int.from_bytes(raw[i:i + 4], 'little')
                i += 4
            if b & 2:
                w = int.from_bytes(raw[i:i + 2], 'little')
                i += 2
            if b & 4:
                pr = int.from_bytes(raw[i:i + 2], 'little')
                i += 2
            if b & 8:
                nxt = int.from_bytes(raw[i:i + 2], 'little')
                i += 2
            if b & 0x30:
                raise U('indirect format width')
            fl &= ~0x18000000      # width and precision are told by themselves
            spec = (('f', fl if b & 1 and fl != 0x60000020 else 0), ('w', w if b & 2 else -1), ('p', pr if b & 4 else -1)) if b & 7 else ()
            k, v = args[nxt]
            nxt += 1
            out.append(fmt_token(k, spec, v))
    return cat(*out)


def fx(st, t):
    st['FX'] = cat(st.get('FX', NIL), unit(t))


# ------------------------------------------------------------------ the tables
EXACT = {}
SUFFIX = {}
PREFIXES = []


def model(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def method(*names):
    """inherent or trait methods matched by the last two path components"""
    def d(f):
        for n in names:
            SUFFIX[n] = f
        return f
    return d


def ident(c):
    return c.a[0]


for _n in ('std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut', 'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut',
           'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut', 'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice',
           'std::hint::must_use', 'std::boxed::Box::new', 'std::rc::Rc::new', 'std::sync::Arc::new', 'std::string::String::as_str',
           'std::string::String::as_bytes', 'std::string::String::into_bytes', 'core::str::as_bytes', 'std::str::as_bytes',
           'std::boxed::box_assume_init_into_vec_unsafe', 'std::slice::into_vec', 'std::io::BufWriter::new', 'std::io::LineWriter::new', 'std::io::BufReader::new',
           'std::io::Cursor::new', 'std::path::Path::new', 'std::convert::identity', 'std::io::BufWriter::with_capacity', 'std::io::LineWriter::with_capacity',
           'std::iter::Iterator::by_ref', 'std::io::BufWriter::get_mut', 'std::io::LineWriter::get_mut', 'std::io::BufWriter::get_ref', 'std::vec::Vec::into_boxed_slice',
           'std::path::Path::as_os_str', 'core::str::as_str', 'std::io::Write::by_ref', 'std::vec::Vec::as_ptr',
           'downcast_rs::Downcast::as_any', 'std::boxed::Box::assume_init', 'std::array::as_slice', 'std::borrow::Cow::as_ref'):
    EXACT[_n] = ident
EXACT['std::io::BufWriter::with_capacity'] = EXACT['std::io::LineWriter::with_capacity'] = lambda c: c.a[1]
EXACT['std::io::BufWriter::into_inner'] = EXACT['std::io::LineWriter::into_inner'] = lambda c: ok(c.a[0])


@model('std::clone::Clone::clone', 'std::slice::to_vec', 'std::borrow::ToOwned::to_owned', 'std::option::Option::cloned', 'std::option::Option::copied',
       'std::vec::Vec::into_iter_copy', 'std::borrow::Cow::into_owned')
def _clone(c):
    v = c.v(0)
    if 'Option' in c.path:
        return lift_leaves(lambda x: enum(x.args[0], x.args[1], *[c.ip.deref(c.st, y) for y in x.args[2:]]) if x.op == 'enum' else x,
                           expand(c.ip, v, c.atys[0], OPT))
    return v


@model('std::convert::From::from', 'std::convert::Into::into', 'std::string::ToString::to_string', 'std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def _from(c):
    ip = c.ip
    dt = ip.ty(c.dty) if c.dty is not None else None
    v = c.v(0)
    if c.path.endswith('to_string'):
        return fmt_token('display', (), v)
    if dt and dt['k'] == 'adt':
        a = ip.p.adts.get(dt['n'])
        if a and a.get('local'):
            cands = [f for f in ip.p.d['fns'] if f['path'].startswith('<' + dt['n']) and f['path'].endswith('>::from') and 'std::convert::From' in f['path']]
            src = c.atys[0]
            for f in cands:
                if f['locals'][1]['ty'] == src:
                    return ip.run_body(f, [c.a[0]], c.st)
            if len(cands) == 1:
                return ip.run_body(cands[0], [c.a[0]], c.st)
        if dt['n'] in (RES, OPT) and 'try_' in c.path:
            return ok(v)
        if dt['n'] in ('std::vec::Vec', 'std::string::String', 'std::collections::VecDeque', 'std::boxed::Box', 'std::rc::Rc'):
            return v
        if dt['n'].startswith('glam::DVec'):
            if v.op == 'agg' and v.args[0] == 'tuple':
                return vec(*v.args[1:])
            if is_vec(v):
                return v
            if is_seq(v):
                return vec(*[get(v, const(i)) for i in range(int(dt['n'][-1]))])
        return None
    if dt and dt['k'] == 'array' and is_vec(v):
        return cat(*[unit(x) for x in comps(v)])
    if dt and dt['k'] == 'tuple' and is_vec(v):
        return agg('tuple', *comps(v))
    if dt and dt['k'] == 'prim':
        return v
    if dt is None:
        return v
    return None


@model('std::default::Default::default')
def _default(c):
    ip = c.ip
    t = ip.ty(c.dty) if c.dty is not None else c.gty(0)
    return default_of(ip, t)


def default_of(ip, t):
    if t is None:
        return None
    if t['k'] == 'ref':
        n = ip.ty(t['t'])
        return NIL if n['k'] == 'slice' or n.get('s') == 'str' or n.get('n') in ('std::ffi::OsStr', 'str') else None
    if t['k'] == 'prim':
        return FALSE if t['s'] == 'bool' else ZERO
    if t['k'] == 'param':
        return ZERO
    if t['k'] == 'tuple':
        xs = [default_of(ip, ip.ty(a)) for a in t['a']]
        return None if any(x is None for x in xs) else agg('tuple', *xs)
    if t['k'] == 'adt':
        n = t['n']
        if n in ('glam::DVec2', 'glam::DVec3', 'glam::DVec4'):
            return vec(*[ZERO] * int(n[-1]))
        if n in ('std::vec::Vec', 'std::collections::VecDeque', 'std::string::String'):
            return NIL
        if n == OPT:
            return none()
        if n == 'approx::Ulps':
            return agg('approx::Ulps', ZERO, ZERO)
    return None


# ---- operators
def _op(name, assign=False):
    def f(c):
        a, b = c.v(0), c.v(1)
        p = c.prim(0) or c.prim(1)
        isf = p is None or p in ('f64', 'f32')
        if name == 'add' and c.adt(0) == 'std::string::String':     # text + text
            if assign:
                t = c.target(0)
                c.ip.write(c.st, t, cat(c.ip.read(c.st, t), str_of(b)))
                return UNIT
            return cat(str_of(a), str_of(b))
        if c.prim(0) == 'bool':
            if name == 'bitand':
                r = b_and(a, b)
            elif name == 'bitor':
                r = b_or(a, b)
            else:
                return None
        else:
            r = lift2(lambda x, y: binary(name, x, y, isf), a, b)
        if assign:
            c.set(0, r)
            return UNIT
        return r
    return f


def lift2(f, a, b):
    return f(a, b)


for _n in ('add', 'sub', 'mul', 'div', 'rem'):
    EXACT['std::ops::%s::%s' % (_n.capitalize(), _n)] = _op(_n)
    EXACT['std::ops::%sAssign::%s_assign' % (_n.capitalize(), _n)] = _op(_n, True)
EXACT['std::ops::BitAnd::bitand'] = _op('bitand')
EXACT['std::ops::BitOr::bitor'] = _op('bitor')


@model('std::ops::Neg::neg')
def _neg(c):
    a = c.v(0)
    return vmap(neg, a) if is_vec(a) else neg(a)


@model('std::ops::Not::not')
def _not(c):
    return b_not(c.v(0))


def range_bounds(r, n):
    """(start, length) of a slice range over a sequence of length n"""
    k = last_name(str(r.args[0]))
    if k == 'Range':
        return r.args[1], sub(r.args[2], r.args[1])
    if k == 'RangeInclusive':
        return r.args[1], add(sub(r.args[2], r.args[1]), ONE)
    if k == 'RangeFrom':
        return r.args[1], sub(n, r.args[1])
    if k == 'RangeTo':
        return ZERO, r.args[1]
    if k == 'RangeToInclusive':
        return ZERO, add(r.args[1], ONE)
    if k == 'RangeFull':
        return ZERO, n
    raise U('index by ' + k)


def outside(i, n):
    """is index i surely none of a sequence of n elements?"""
    if i.op != 'rat' or n.op != 'rat':
        return False
    return int_lt(i, n) is FALSE or int_lt(i, ZERO) is TRUE


def within(i, n):
    if outside(i, n):
        from interp import Diverges
        raise Diverges('index %s of %s' % (str(i)[:80], str(n)[:80]))


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def _index(c):
    ip, st = c.ip, c.st
    i = c.v(1)
    mut = c.path.endswith('index_mut')
    v = c.v(0)
    if i.op == 'agg' and i.args[0] == 'tuple' and v.op == 'agg' and v.args[0] == 'grid':
        pos = add(mul(i.args[1], v.args[3]), i.args[2])
        if mut:
            t = c.target(0)
            return mk('ref', t.args[0], t.args[1] + (('f', 0, None), ('i', pos)))
        return mk('rv', get(v.args[1], pos))
    isr = i.op == 'agg'
    if i.op not in ('rat', 'ite', 'agg', 'bot'):
        if i.op in ('sym', 'app', 'proj', 'idx', 'fv', 'bv'):
            i = atom(i)
        else:
            raise U('index by ' + i.op)
    if v.op == 'ite' and not is_seq(v):
        raise U('index of conditional')
    if v.op == 'agg' and v.args[0] == 'grid':
        data, rows, cols = v.args[1:]
        if mut:
            t = c.target(0)
            return mk('ref', t.args[0], t.args[1] + (('f', 0, None), ('sl', mul(i, cols), cols)))
        return mk('rv', sub_(data, mul(i, cols), cols))
    if is_vec(v):
        xs = cat(*[unit(x) for x in comps(v)])
        ci = cval(i)
        if mut:
            t = c.target(0)
            if ci is None:
                raise U('vector component')
            return mk('ref', t.args[0], t.args[1] + (('f', int(ci), None),))
        return mk('rv', get(xs, i))
    s = seq_of(v)
    if isr:
        a, n = range_bounds(i, length(s))
        if s is not BOT:
            within(a, add(length(s), ONE))
            within(n, add(sub(length(s), a), ONE))
        if mut:
            t = c.target(0)
            return mk('ref', t.args[0], t.args[1] + (('sl', a, n),))
        return mk('rv', sub_(s, a, n))
    if s is not BOT:
        within(i, length(s))
    if mut:
        t = c.target(0)
        return lift_leaves(lambda x: mk('ref', x.args[0], x.args[1] + (('i', i),)), t)
    return mk('rv', get(s, i))


# ---- comparison
@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def _eq(c):
    r = equal_val(c.v(0), c.v(1), c.prim(0) in ('f64', 'f32'))
    if r is None:
        a, b = c.ip.snap(c.st, c.v(0)), c.ip.snap(c.st, c.v(1))
        if b.h < a.h:
            a, b = b, a
        r = b_atom('errkind' if any(x.op == 'app' and x.args[0] == 'errkind' for x in (a, b)) else 'same', a, b)
    return b_not(r) if c.path.endswith('ne') else r


def equal_val(a, b, isf):
    if a is b:
        return TRUE
    if a.op in ('true', 'false') or b.op in ('true', 'false') or (a.op == 'ite' and all(x in (TRUE, FALSE) for x in loops.leaves(a))):
        return ite(a, b, b_not(b))
    if a.op in ('rat',) and b.op in ('rat', 'ite') or (a.op == 'ite' and b.op == 'rat'):
        try:
            return real_eq(a, b) if isf else int_eq(a, b)
        except NotScalar:
            return None
    if a.op == 'agg' and b.op == 'agg' and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        r = TRUE
        for x, y in zip(a.args[1:], b.args[1:]):
            e = equal_val(x, y, a.args[0] == 'vec')
            if e is None:
                return None
            r = b_and(r, e)
        return r
    if is_enumish(a) or is_enumish(b):
        def one(x, y):
            if x.op == 'enum' and y.op == 'enum':
                if x.args[1] != y.args[1]:
                    return FALSE
                r = TRUE
                for p, q in zip(x.args[2:], y.args[2:]):
                    e = equal_val(p, q, isf)
                    if e is None:
                        return None
                    r = b_and(r, e)
                return r
            return None
        bad = []

        def outer(x):
            def inner(y):
                r = one(x, y)
                if r is None:
                    bad.append(1)
                    return FALSE
                return r
            return lift_leaves(inner, b)
        r = lift_leaves(outer, a)
        return None if bad else r
    if a.op == 'ite' or b.op == 'ite':
        try:
            return real_eq(a, b) if isf else int_eq(a, b)
        except (NotScalar, AttributeError):
            return None
    return None


@model('std::cmp::PartialOrd::partial_cmp', 'std::cmp::Ord::cmp', 'core::f64::total_cmp', 'std::f64::total_cmp')
def _cmp(c):
    a, b = c.v(0), c.v(1)
    p = c.prim(0)
    if p in INTS:
        r = order(int_lt(a, b), int_eq(a, b))
    elif p in ('f64', 'f32'):
        r = sgn_order(sub(a, b))
    else:
        return None
    return some(r) if c.path.endswith('partial_cmp') else r


for _n, _f, _i in (('lt', real_lt, int_lt), ('le', real_le, int_le), ('gt', lambda a, b: real_lt(b, a), lambda a, b: int_lt(b, a)), ('ge', lambda a, b: real_le(b, a), lambda a, b: int_le(b, a))):
    def _mkcmp(f, i):
        def g(c):
            if c.prim(0) in INTS:
                return i(c.v(0), c.v(1))
            if c.prim(0) in ('f64', 'f32'):
                return f(c.v(0), c.v(1))
            return None
        return g
    EXACT['std::cmp::PartialOrd::' + _n] = _mkcmp(_f, _i)


def _ordleaf(f):
    def g(c):
        v = c.v(0)
        return lift_leaves(lambda x: f(x.args[1]), v)
    return g


for _n, _s in (('is_lt', {0}), ('is_le', {0, 1}), ('is_gt', {2}), ('is_ge', {1, 2}), ('is_eq', {1}), ('is_ne', {0, 2})):
    EXACT['std::cmp::Ordering::' + _n] = _ordleaf(lambda i, s=_s: TRUE if i in s else FALSE)
EXACT['std::cmp::Ordering::reverse'] = _ordleaf(lambda i: enum(ORD, 2 - i))


@model('std::cmp::Ordering::then')
def _then(c):
    b = c.v(1)
    return lift_leaves(lambda x: b if x.args[1] == 1 else x, c.v(0))


@model('std::cmp::Ordering::then_with')
def _then_with(c):
    v = c.v(0)
    g = lift_leaves(lambda x: TRUE if x.args[1] == 1 else FALSE, v)
    b = cond_apply(c.ip, g, c.a[1], [], c.st)
    return ite(g, b, v)


@model('std::cmp::min', 'std::cmp::Ord::min')
def _imin(c):
    return tmin(c.v(0), c.v(1)) if (c.prim(0) in INTS) else None


@model('std::cmp::max', 'std::cmp::Ord::max')
def _imax(c):
    return tmax(c.v(0), c.v(1)) if (c.prim(0) in INTS) else None


@model('std::cmp::Ord::clamp')
def _iclamp(c):
    x, lo, hi = c.v(0), c.v(1), c.v(2)
    return ite(int_lt(x, lo), lo, ite(int_lt(hi, x), hi, x))


@model('std::mem::swap')
def _swap(c):
    a, b = c.target(0), c.target(1)
    x, y = c.ip.read(c.st, a), c.ip.read(c.st, b)
    c.ip.write(c.st, a, y)
    c.ip.write(c.st, b, x)
    return UNIT


@model('std::mem::replace')
def _replace(c):
    t = c.target(0)
    x = c.ip.read(c.st, t)
    c.ip.write(c.st, t, c.a[1])
    return x


@model('std::mem::take')
def _mtake(c):
    t = c.target(0)
    x = c.ip.read(c.st, t)
    d = NIL if is_seq(x) else (none() if is_enumish(x) else ZERO if x.op == 'rat' else None)
    if d is None:
        return None
    c.ip.write(c.st, t, d)
    return x


@model('std::mem::drop', 'std::mem::forget')
def _drop(c):
    return UNIT


# ---- scalars
def num(f):
    def g(c):
        return f(*[c.v(i) for i in range(len(c.a))])
    return g


def _f64(name, f):
    for p in ('core::f64::', 'std::f64::'):
        EXACT[p + name] = num(f)


_f64('abs', absv)
_f64('sqrt', sqrt)
for _n in ('sin', 'cos', 'tan', 'atan2', 'asin', 'acos', 'atan', 'floor', 'ceil', 'round', 'trunc', 'exp', 'ln', 'powf', 'signum', 'cbrt', 'sinh', 'cosh', 'fract', 'copysign'):
    _f64(_n, (lambda nm: lambda *xs: fn(nm, *xs))(_n))
_f64('sin_cos', lambda x: agg('tuple', fn('sin', x), fn('cos', x)))
_f64('tan', lambda x: div(fn('sin', x), fn('cos', x)))
_f64('powi', powi)
_f64('min', fmin)
_f64('max', fmax_)
_f64('clamp', clampf)
_f64('hypot', lambda a, b: sqrt(add(mul(a, a), mul(b, b))))
_f64('mul_add', lambda a, b, c: add(mul(a, b), c))
_f64('recip', inv)
_f64('to_radians', lambda x: mul(x, mul(PI, const(Fraction(1, 180)))))
_f64('to_degrees', lambda x: mul(x, div(const(180), PI)))
_f64('rem_euclid', rem_euclid_f)
_f64('is_nan', lambda x: nanc(x))
_f64('is_finite', lambda x: b_not(nanc(x)))
_f64('is_sign_negative', lambda x: real_lt(x, ZERO))
_f64('is_sign_positive', lambda x: real_le(ZERO, x))


def nanc(x):
    def one(y):
        y = T_._as_scalar(y)
        if y is NAN:
            return TRUE
        if cval(y) is not None:
            return FALSE
        return b_atom('nan', y)
    return T_._lift('nan', one, x)


b_hooks['nan'] = lambda tag, x: nanc(x)


def _int(name, f):
    for p in ('core::num::', 'std::num::', 'std::usize::', 'core::usize::'):
        EXACT[p + name] = num(f)


_int('rem_euclid', lambda a, b: divmod_t(a, b)[1])
_int('div_euclid', lambda a, b: divmod_t(a, b)[0])
_int('div_ceil', lambda a, b: divmod_t(add(a, sub(b, ONE)), b)[0])
_int('saturating_sub', lambda a, b: max0(sub(a, b)))
_int('saturating_add', add)
_int('saturating_mul', mul)
_int('wrapping_add', add)
_int('wrapping_mul', mul)
_int('wrapping_sub', sub)
_int('checked_sub', lambda a, b: ite(int_le(b, a), some(sub(a, b)), none()))
_int('checked_add', lambda a, b: some(add(a, b)))
_int('checked_mul', lambda a, b: some(mul(a, b)))
_int('checked_div', lambda a, b: ite(int_eq(b, ZERO), none(), some(divmod_t(a, b)[0])))
_int('pow', powi)
_int('abs', lambda x: ite(int_lt(x, ZERO), neg(x), x))
_int('abs_diff', lambda a, b: ite(int_lt(a, b), sub(b, a), sub(a, b)))
_int('is_multiple_of', lambda a, b: int_eq(divmod_t(a, b)[1], ZERO))


@model('core::f32::to_le_bytes', 'core::f64::to_le_bytes', 'core::num::to_le_bytes', 'std::f32::to_le_bytes', 'std::f64::to_le_bytes')
def _le(c):
    return le_token(c.prim(0) or ('f32' if 'f32' in c.path else 'f64'), c.v(0))


@model('approx::AbsDiffEq::abs_diff_eq', 'approx::AbsDiffEq::abs_diff_ne')
def _absdiff(c):
    a, b, e = c.v(0), c.v(1), c.v(2)
    if is_vec(a):
        r = TRUE
        for x, y in zip(comps(a), comps(b)):
            r = b_and(r, near(sub(x, y), e))
    else:
        r = near(sub(a, b), e)
    return b_not(r) if c.path.endswith('ne') else r


@model('approx::Ulps::eq', 'approx::Ulps::ne')
def _ulps(c):
    a, b = c.v(1), c.v(2)
    r = ulps(sub(a, b))
    return b_not(r) if c.path.endswith('::ne') else r


@model('approx::AbsDiffEq::default_epsilon')
def _eps(c):
    return atom(mk('sym', 'eps'))


@model('rand::random', 'rand::Rng::gen')
def _rand(c):
    i = c.st.get('RNG', ZERO)
    c.st['RNG'] = add(i, ONE)
    a = mk('app', 'rand', i)
    return atom(a)


# ---- glam
def glam(name, f, *types):
    for t in types or ('DVec2', 'DVec3', 'DVec4'):
        EXACT['glam::%s::%s' % (t, name)] = num(f)


glam('new', lambda *xs: vec(*xs))
glam('splat', lambda x: vec(x, x), 'DVec2')
glam('splat', lambda x: vec(x, x, x), 'DVec3')
glam('splat', lambda x: vec(x, x, x, x), 'DVec4')
glam('zero', lambda: vec(ZERO, ZERO, ZERO), 'DVec3')
glam('dot', dot)
glam('cross', cross)
glam('length', norm)
glam('length_squared', lambda a: dot(a, a))
glam('length_recip', lambda a: inv(norm(a)))
glam('distance', lambda a, b: norm(vsub(a, b)))
glam('distance_squared', lambda a, b: dot(vsub(a, b), vsub(a, b)))
glam('normalize', normalize)
glam('normalize_or_zero', lambda a: ite(T_.real_lt(ZERO, dot(a, a)), normalize(a), vmap(lambda x: ZERO, a)))
glam('normalize_or', lambda a, b: ite(T_.real_lt(ZERO, dot(a, a)), normalize(a), b))
glam('try_normalize', lambda a: ite(T_.real_lt(ZERO, dot(a, a)), some(normalize(a)), none()))
glam('midpoint', lambda a, b: vmap(lambda x: mul(x, const(Fraction(1, 2))), vadd(a, b)))
glam('lerp', lambda a, b, t: vadd(a, vmul(vsub(b, a), t)))
glam('perp', lambda a: vec(neg(comps(a)[1]), comps(a)[0]), 'DVec2')
glam('perp_dot', lambda a, b: sub(mul(comps(a)[0], comps(b)[1]), mul(comps(a)[1], comps(b)[0])), 'DVec2')
glam('truncate', lambda a: vec(*comps(a)[:-1]))
glam('extend', lambda a, w: vec(*(tuple(comps(a)) + (w,))))
glam('is_nan', lambda a: _anynan(a))
glam('min', lambda a, b: vmap(fmin, a, b))
glam('max', lambda a, b: vmap(fmax_, a, b))
glam('abs', lambda a: vmap(absv, a))
glam('min_element', lambda a: _red(fmin, comps(a)))
glam('max_element', lambda a: _red(fmax_, comps(a)))
glam('to_array', lambda a: cat(*[unit(x) for x in comps(a)]))
glam('from_slice', lambda s: vec(*[get(s, const(i)) for i in range(3)]), 'DVec3')
glam('recip', lambda a: vmap(inv, a))
glam('clamp', lambda a, l, h: vec(*[clampf(*x) for x in zip(comps(a), comps(l), comps(h))]))
glam('abs_diff_eq', lambda a, b, e: _allnear(a, b, e))
glam('angle_between', lambda a, b: fn('acos', div(dot(a, b), sqrt(mul(dot(a, a), dot(b, b))))))
glam('from_axis_angle', lambda n, t: agg('rot', n, t), 'DQuat')
glam('mul_vec3', lambda q, v: rotate(q, v), 'DQuat')
glam('from_rotation_z', lambda t: agg('rot', vec(ZERO, ZERO, ONE), t), 'DQuat')
glam('from_rotation_y', lambda t: agg('rot', vec(ZERO, ONE, ZERO), t), 'DQuat')
glam('from_rotation_x', lambda t: agg('rot', vec(ONE, ZERO, ZERO), t), 'DQuat')
glam('from_cols', lambda a, b: agg('mat2', a, b), 'DMat2')
glam('from_cols_array', lambda s: agg('mat2', vec(get(s, ZERO), get(s, ONE)), vec(get(s, TWO), get(s, const(3)))), 'DMat2')
glam('from_axis_angle', lambda n, t: agg('rot', n, t), 'DMat3')
glam('mul_vec2', lambda m, v: binary('mul', m, v, True), 'DMat2')
glam('transpose', lambda m: agg('mat2', vec(m.args[1].args[1], m.args[2].args[1]), vec(m.args[1].args[2], m.args[2].args[2])), 'DMat2')


def _det(m):
    a, b = m.args[1:]
    return sub(mul(a.args[1], b.args[2]), mul(a.args[2], b.args[1]))


def _minv(m):
    a, b = m.args[1:]
    k = inv(_det(m))
    return agg('mat2', vec(mul(b.args[2], k), neg(mul(a.args[2], k))), vec(neg(mul(b.args[1], k)), mul(a.args[1], k)))


glam('determinant', _det, 'DMat2')
glam('inverse', _minv, 'DMat2')
glam('inverse', lambda q: agg('rot', q.args[1], neg(q.args[2])), 'DQuat')


def _anynan(a):
    return nanv(*comps(a))


def nanv(*xs):
    """is a component not a number?"""
    for x in xs:
        x = T_._as_scalar(x)
        if x.op == 'ite':
            c = x.args[0]
            return mk_ite(c, [nanv(*[deep_cof(y, c, b) for y in xs]) for b in range(arity(c))])
    rest = []
    for x in xs:
        y = nanc(x)
        if y is TRUE:
            return TRUE
        if y is not FALSE:
            rest.append(x)
    if not rest:
        return FALSE
    return nanc(rest[0]) if len(rest) == 1 else b_atom('nanv', *rest)


b_hooks['nanv'] = lambda tag, *xs: nanv(*xs)
T_.LIFTB.add('nanv')


def _allnear(a, b, e):
    r = TRUE
    for x, y in zip(comps(a), comps(b)):
        r = b_and(r, near(sub(x, y), e))
    return r


def _red(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


for _t in ('DVec2', 'DVec3', 'DVec4'):
    for _i, _a in enumerate('xyzw'):
        glam('x' if False else _a, (lambda i: lambda v: comps(v)[i])(_i), _t)
CTOR = {'glam::dvec2': 2, 'glam::dvec3': 3, 'glam::dvec4': 4}
for _n in CTOR:
    EXACT[_n] = num(lambda *xs: vec(*xs))


# ---- grid
@model('grid::Grid::from_vec')
def _gfrom(c):
    s, cols = c.v(0), c.v(1)
    n = length(s)
    return agg('grid', s, divmod_t(n, cols)[0], cols)


@model('grid::Grid::init')
def _ginit(c):
    r, k, v = c.v(0), c.v(1), c.v(2)
    return agg('grid', comp(mul(r, k), lambda i: v), r, k)


@model('grid::Grid::new')
def _gnew(c):
    r, k = c.v(0), c.v(1)
    g = c.ip.ty(c.dty)
    d = default_of(c.ip, c.ip.ty(g['a'][0]))
    return agg('grid', comp(mul(r, k), lambda i: d), r, k) if d is not None else None


EXACT['grid::Grid::rows'] = lambda c: c.v(0).args[2]
EXACT['grid::Grid::cols'] = lambda c: c.v(0).args[3]
EXACT['grid::Grid::size'] = lambda c: agg('tuple', c.v(0).args[2], c.v(0).args[3])
EXACT['grid::Grid::into_vec'] = lambda c: c.v(0).args[1]
EXACT['grid::Grid::flatten'] = lambda c: mk('rv', c.v(0).args[1])
EXACT['grid::Grid::iter'] = lambda c: to_it(c.ip, c.st, mk('rv', c.v(0).args[1]))
EXACT['grid::Grid::iter_mut'] = lambda c: to_it(c.ip, c.st, c.target(0))
EXACT['grid::Grid::iter_row'] = lambda c: to_it(c.ip, c.st, mk('rv', sub_(c.v(0).args[1], mul(c.v(1), c.v(0).args[3]), c.v(0).args[3])))
EXACT['grid::Grid::is_empty'] = lambda c: int_eq(length(c.v(0).args[1]), ZERO)


@model('grid::Grid::iter_col')
def _gcol(c):
    d, r, k = c.v(0).args[1:]
    j = c.v(1)
    return It(comp(r, lambda i: mk('rv', get(d, add(mul(i, k), j)))))


@model('grid::Grid::get')
def _gget(c):
    d, r, k = c.v(0).args[1:]
    i, j = c.v(1), c.v(2)
    return ite(b_and(int_lt(i, r), int_lt(j, k)), some(mk('rv', get(d, add(mul(i, k), j)))), none())


@model('grid::Grid::transpose')
def _gtr(c):
    d, r, k = c.v(0).args[1:]
    return agg('grid', flat(k, lambda j: comp(r, lambda i: get(d, add(mul(i, k), j)))), k, r)


# ---- Option / Result
def opt(c, i=0, name=OPT):
    return expand(c.ip, c.v(i), _noref(c, i), name)


def _noref(c, i):
    ti = c.atys[i] if i < len(c.atys) else None
    while ti is not None and c.ip.ty(ti)['k'] in ('ref', 'ptr'):
        ti = c.ip.ty(ti)['t']
    return ti


def kind(c):
    return RES if 'Result' in c.path else OPT


def hasi(c):
    return 0 if kind(c) == RES else 1


@model(*['std::%s::%s' % (a, b) for a in ('option::Option', 'result::Result') for b in ('unwrap', 'expect', 'unwrap_unchecked')])
def _unwrap(c):
    return pay(opt(c, 0, kind(c)), hasi(c))


@model('std::option::Option::unwrap_or', 'std::result::Result::unwrap_or', 'std::option::Option::unwrap_or_default', 'std::result::Result::unwrap_or_default')
def _unwrap_or(c):
    o = opt(c, 0, kind(c))
    d = c.a[1] if len(c.a) > 1 else default_of(c.ip, c.ip.ty(c.dty))
    if d is None:
        return None
    return ite(which(o, hasi(c)), pay(o, hasi(c)), d)


@model('std::option::Option::unwrap_or_else', 'std::result::Result::unwrap_or_else')
def _unwrap_or_else(c):
    o = opt(c, 0, kind(c))
    g = which(o, hasi(c))
    args = [] if kind(c) == OPT else [pay(o, 1)]
    d = cond_apply(c.ip, b_not(g), c.a[1], args, c.st)
    return ite(g, pay(o, hasi(c)), d)


@model('std::option::Option::map', 'std::result::Result::map')
def _omap(c):
    o = opt(c, 0, kind(c))
    g = which(o, hasi(c))
    r = cond_apply(c.ip, g, c.a[1], [pay(o, hasi(c))], c.st)
    if kind(c) == OPT:
        return ite(g, some(r) if r is not BOT else BOT, none())
    return ite(g, ok(r) if r is not BOT else BOT, restrict(o, b_not(g)))


@model('std::option::Option::map_or', 'std::option::Option::map_or_else', 'std::result::Result::map_or')
def _omapor(c):
    o = opt(c, 0, kind(c))
    g = which(o, hasi(c))
    r = cond_apply(c.ip, g, c.a[2], [pay(o, hasi(c))], c.st)
    d = c.a[1] if not c.path.endswith('else') else cond_apply(c.ip, b_not(g), c.a[1], [], c.st)
    return ite(g, r, d)


@model('std::option::Option::is_some_and', 'std::option::Option::is_none_or', 'std::result::Result::is_ok_and')
def _isand(c):
    o = opt(c, 0, kind(c))
    g = which(o, hasi(c))
    r = cond_apply(c.ip, g, c.a[1], [pay(o, hasi(c))], c.st)
    return ite(g, r, TRUE if c.path.endswith('none_or') else FALSE)


@model('std::option::Option::and_then', 'std::result::Result::and_then')
def _and_then(c):
    o = opt(c, 0, kind(c))
    g = which(o, hasi(c))
    r = cond_apply(c.ip, g, c.a[1], [pay(o, hasi(c))], c.st)
    if r is not BOT:
        r = expand(c.ip, r, c.dty, kind(c))
    return ite(g, r, none() if kind(c) == OPT else restrict(o, b_not(g)))


@model('std::option::Option::or', 'std::option::Option::or_else', 'std::option::Option::xor')
def _or(c):
    o = opt(c)
    g = which(o, 1)
    b = opt(c, 1) if c.path.endswith('::or') else cond_apply(c.ip, b_not(g), c.a[1], [], c.st)
    return ite(g, o, b)


@model('std::option::Option::and')
def _and(c):
    return ite(which(opt(c), 1), opt(c, 1), none())


@model('std::option::Option::filter')
def _ofilter(c):
    o = opt(c)
    g = which(o, 1)
    r = cond_apply(c.ip, g, c.a[1], [mk('rv', pay(o, 1))], c.st)
    return ite(b_and(g, r) if r is not BOT else FALSE, o, none())


@model('std::option::Option::zip')
def _ozip(c):
    a, b = opt(c), opt(c, 1)
    return ite(b_and(which(a, 1), which(b, 1)), some(agg('tuple', pay(a, 1), pay(b, 1))), none())


EXACT['std::option::Option::is_some'] = lambda c: which(opt(c), 1)
EXACT['std::option::Option::is_none'] = lambda c: b_not(which(opt(c), 1))
EXACT['std::result::Result::is_ok'] = lambda c: b_not(which(opt(c, 0, RES), 1))
EXACT['std::result::Result::is_err'] = lambda c: which(opt(c, 0, RES), 1)


@model('std::option::Option::as_ref', 'std::option::Option::as_deref', 'std::option::Option::as_mut', 'std::result::Result::as_ref')
def _asref(c):
    o = opt(c, 0, kind(c))
    return lift_leaves(lambda x: enum(x.args[0], x.args[1], *[mk('rv', y) for y in x.args[2:]]), o)


EXACT['std::result::Result::ok'] = lambda c: (lambda o: ite(which(o, 0), some(pay(o, 0)), none()))(opt(c, 0, RES))
EXACT['std::result::Result::err'] = lambda c: (lambda o: ite(which(o, 1), some(pay(o, 1)), none()))(opt(c, 0, RES))
EXACT['std::option::Option::ok_or'] = lambda c: (lambda o: ite(which(o, 1), ok(pay(o, 1)), enum(RES, 1, c.a[1])))(opt(c))


@model('std::option::Option::ok_or_else')
def _okorelse(c):
    o = opt(c)
    g = which(o, 1)
    r = cond_apply(c.ip, b_not(g), c.a[1], [], c.st)
    return ite(g, ok(pay(o, 1)), enum(RES, 1, r) if r is not BOT else BOT)


@model('std::result::Result::map_err')
def _maperr(c):
    o = opt(c, 0, RES)
    return lift_leaves(lambda x: x if x.args[1] == 0 else enum(RES, 1, mk('sym', 'err')), o)


@model('std::io::Error::kind')
def _errkind(c):
    return mk('app', 'errkind', c.ip.snap(c.st, c.a[0]))


@model('std::result::Result::or_else', 'std::result::Result::or', 'std::result::Result::and')
def _ror(c):
    o = opt(c, 0, RES)
    g = which(o, 0)
    if c.path.endswith('::and'):
        return ite(g, opt(c, 1, RES), o)
    b = opt(c, 1, RES) if c.path.endswith('::or') else cond_apply(c.ip, b_not(g), c.a[1], [pay(o, 1)], c.st)
    return ite(g, o, b)


@model('std::result::Result::map_or_else')
def _rmapor(c):
    o = opt(c, 0, RES)
    g = which(o, 0)
    r = cond_apply(c.ip, g, c.a[2], [pay(o, 0)], c.st)
    return ite(g, r, cond_apply(c.ip, b_not(g), c.a[1], [pay(o, 1)], c.st))


@model('std::result::Result::is_err_and')
def _riserrand(c):
    o = opt(c, 0, RES)
    g = which(o, 1)
    r = cond_apply(c.ip, g, c.a[1], [pay(o, 1)], c.st)
    return FALSE if r is BOT else ite(g, r, FALSE)


@model('std::result::Result::unwrap_err', 'std::result::Result::expect_err')
def _runwraperr(c):
    return pay(opt(c, 0, RES), 1)


@model('std::result::Result::iter', 'std::result::Result::into_iter')
def _riter(c):
    o = opt(c, 0, RES)
    return to_it(c.ip, c.st, ite(which(o, 0), some(pay(o, 0)), none()))


@model('std::result::Result::inspect', 'std::result::Result::inspect_err', 'std::option::Option::inspect')
def _inspect(c):
    o = opt(c, 0, kind(c))
    i = 1 if c.path.endswith('_err') else hasi(c)
    cond_apply(c.ip, which(o, i), c.a[1], [mk('rv', pay(o, i))], c.st)
    return o


@model('std::option::Option::replace', 'std::option::Option::insert')
def _oreplace(c):
    old = c.v(0)
    c.set(0, some(c.a[1]))
    if c.path.endswith('replace'):
        return old
    return None


@model('std::option::Option::take')
def _otake(c):
    v = c.v(0)
    c.set(0, none())
    return v


@model('std::option::Option::iter', 'std::option::Option::into_iter')
def _oiter(c):
    return to_it(c.ip, c.st, opt(c))


@model('std::option::Option::flatten')
def _oflat(c):
    o = opt(c)
    return ite(which(o, 1), pay(o, 1), none())


@model('std::ops::Try::branch')
def _branch(c):
    t = c.aty(0)
    name = t['n'] if t else None
    if name not in (OPT, RES):
        v = c.v(0)
        name = [x.args[0] for x in loops.leaves(v) if x.op == 'enum'][:1]
        name = name[0] if name else OPT
    o = expand(c.ip, c.v(0), _noref(c, 0), name)
    h = 1 if name == OPT else 0
    return lift_leaves(lambda x: enum(CF, 0, x.args[2]) if x.args[1] == h else enum(CF, 1, x), o)


@model('std::ops::FromResidual::from_residual')
def _fromres(c):
    return c.v(0)


@model('std::ops::Try::from_output')
def _fromout(c):
    t = c.ip.ty(c.dty) if c.dty is not None else None
    if t and t['k'] == 'adt' and t['n'] == OPT:
        return some(c.a[0])
    return ok(c.a[0])


# ---- formatting and output
def _arg(kind_):
    return lambda c: agg('FmtArg:' + kind_, c.ip.snap(c.st, c.a[0]))


for _k in ('display', 'debug', 'lower_exp', 'upper_exp', 'lower_hex', 'upper_hex'):
    EXACT['core::fmt::rt::Argument::new_' + _k] = _arg(_k)


@model('std::fmt::Arguments::new')
def _fargs(c):
    raw = bytes_of(c.v(0))
    args = []
    s = c.v(1)
    n = cval(length(s))
    for i in range(int(n)):
        a = c.ip.deref(c.st, get(s, const(i)))
        args.append((str(a.args[0]).split(':')[1], a.args[1]))
    return agg('FmtArgs', parse_template(raw, args))


@model('std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const', 'std::fmt::Arguments::from_str_nonconst')
def _fstr(c):
    v = c.v(0)
    if is_seq(v):
        return agg('FmtArgs', v)
    return None


@model('std::fmt::format', 'std::fmt::Arguments::to_string')
def _format(c):
    v = c.v(0)
    return v.args[1]


def wtarget(c, i=0):
    return inner_ref(c.ip, c.st, c.a[i])


def append(c, toks):
    t = wtarget(c)
    old = c.ip.read(c.st, t)
    if not is_seq(old) and old is not BOT:
        if old.op not in ('sym', 'proj', 'app', 'rat'):
            raise U('write to ' + old.op)
        old = base(mk('tape', old), mk('shape', 'x'))
    c.ip.write(c.st, t, cat(old, toks))


@model('std::io::Write::write_fmt', 'std::fmt::Write::write_fmt')
def _wfmt(c):
    append(c, c.v(1).args[1])
    return ok(UNIT)


@model('std::io::Write::write_all', 'std::io::Write::write', 'std::fmt::Write::write_str')
def _wall(c):
    s = str_of(c.v(1))
    append(c, s)
    return ok(length(s)) if c.path.endswith('::write') else ok(UNIT)


@model('std::io::Write::flush', 'std::fs::File::sync_all', 'std::fs::File::sync_data')
def _flush(c):
    return ok(UNIT)


@model('std::io::Seek::seek')
def _seek(c):
    v = c.v(1)
    if v.op != 'enum' or v.args[1] != 0:
        raise U('seek')
    append(c, unit(mk('seek', v.args[2])))
    return ok(v.args[2])


EXACT['std::io::Seek::rewind'] = lambda c: (append(c, unit(mk('seek', ZERO))), ok(UNIT))[1]


@model('std::fs::File::create')
def _create(c):
    n = sum(1 for k in c.st if k.startswith('FILE'))
    r = 'FILE%d' % n
    c.st[r] = NIL
    fx(c.st, agg('create', c.ip.snap(c.st, c.a[0])))
    return ok(mk('ref', r, ()))


@model('std::fs::write')
def _fswrite(c):
    n = sum(1 for k in c.st if k.startswith('FILE'))
    c.st['FILE%d' % n] = str_of(c.v(1))
    fx(c.st, agg('create', c.ip.snap(c.st, c.a[0])))
    return ok(UNIT)


@model('std::fs::read', 'std::fs::File::open')
def _fsread(c):
    return ok(base(mk('app', 'fsread', c.ip.snap(c.st, c.a[0])), mk('shape', 'x')))


@model('std::io::_print', 'std::io::_eprint')
def _print(c):
    fx(c.st, agg('print', c.v(0).args[1]))
    return UNIT


@model('std::io::BufRead::lines', 'core::str::lines')
def _lines(c):
    s = c.v(0)
    b = s.args[0] if s.op == 'base' else s
    el = mk('app', 'lines', b)
    n = atom(mk('len', el))
    row = lambda i: base(mk('idx', el, i), mk('shape', 'x'))
    if c.path.startswith('std::io'):    # a line of bytes that are no text cannot be read
        return It(comp(n, lambda i: ite(unreadable(el, i), enum(RES, 1, mk('sym', 'err')), ok(row(i)))))
    return It(comp(n, lambda i: mk('rv', row(i))))


def unreadable(lines, i):
    return b_atom('unreadable', base(mk('idx', lines, i), mk('shape', 'x')))


def all_text(b, good):
    """good if every line of the bytes b is text"""
    el = mk('app', 'lines', b)
    n = atom(mk('len', el))
    k = T_.first(n, lambda i: unreadable(el, i))
    return ite(int_lt(k, n), enum(RES, 1, mk('sym', 'err')), good)


@model('std::fs::read_to_string')
def _fsreadstr(c):
    b = mk('app', 'fsread', c.ip.snap(c.st, c.a[0]))
    return all_text(b, ok(base(b, mk('shape', 'x'))))


@model('std::string::String::from_utf8', 'core::str::from_utf8', 'std::str::from_utf8')
def _utf8(c):
    s = c.v(0)
    return all_text(s.args[0] if s.op == 'base' else s, ok(s if 'String' in c.path else mk('rv', s)))


@model('core::str::split', 'core::str::split_whitespace', 'core::str::split_ascii_whitespace', 'core::str::split_terminator')
def _split(c):
    pat = [pattern(bare(c.ip.snap(c.st, a))) for a in c.a[1:]]
    if pat and pat[0].op == 'agg' and pat[0].args[0] != 'chars' or pat and pat[0].op == 'fnitem':
        pat = [lam_fresh(c.ip, c.st, shape(atom(mk('sym', 's'))), 1, lambda ch: c.ip.apply(c.a[1], [ch], dict(c.st)))]
    t = mk('app', last_name(c.path), bare(c.v(0)), *pat)
    n = atom(mk('len', t))
    return It(comp(n, lambda i: mk('rv', base(mk('idx', t, i), mk('shape', 'x')))))


@model('core::str::is_empty', 'std::string::String::is_empty', 'std::vec::Vec::is_empty', 'core::slice::is_empty', 'std::collections::VecDeque::is_empty', 'std::slice::is_empty')
def _is_empty(c):
    return int_eq(length(str_of(c.v(0))), ZERO)


@model('core::str::starts_with', 'core::str::ends_with', 'core::str::contains')
def _sw(c):
    return b_atom(last_name(c.path), bare(c.ip.snap(c.st, c.a[0])), pattern(bare(c.ip.snap(c.st, c.a[1]))))


def bare(t):
    """without references"""
    while t.op == 'rv':
        t = t.args[0]
    return t


def pattern(t):
    """a text pattern: a text, or the set of the characters matched"""
    if is_seq(t) or t.op == 'rat':
        ps = [p.args[0] if p.op == 'unit' else None for p in (t.args if t.op == 'cat' else [t])] if is_seq(t) else [t]
        cs = [cval(p) if p is not None and p.op == 'rat' else None for p in ps]
        if cs and all(x is not None for x in cs):
            cs = sorted(set(chr(int(x)) for x in cs))
            return lit(cs[0]) if len(cs) == 1 else agg('chars', *[lit(x) for x in cs])
    return t


@model('core::str::trim', 'core::str::trim_start', 'core::str::trim_end')
def _trim(c):
    s = c.v(0)
    return mk('rv', base(mk('app', last_name(c.path), s), mk('shape', 'x')))


@model('std::str::FromStr::from_str', 'core::str::parse')
def _parse(c):
    t = c.ip.ty(c.dty)
    g = c.ip.ty(t['a'][0])
    x = mk('app', 'parse:' + g['s'], bare(c.ip.snap(c.st, c.a[0])))
    return ite(variant_cond(x, 1), enum(RES, 1, mk('sym', 'err')), ok(c.ip.havoc(t['a'][0], proj_(mk('dc', x, 0), (0,)))))


EXACT['std::string::String::new'] = EXACT['std::vec::Vec::new'] = EXACT['std::collections::VecDeque::new'] = lambda c: NIL
EXACT['std::string::String::with_capacity'] = EXACT['std::vec::Vec::with_capacity'] = EXACT['std::collections::VecDeque::with_capacity'] = lambda c: NIL


@model('std::string::String::push_str', 'std::string::String::push')
def _pushstr(c):
    t = c.target(0)
    v = c.v(1)
    if not is_seq(v):
        cv = cval(v)
        v = lit(chr(int(cv))) if cv is not None else unit(v)
    c.ip.write(c.st, t, cat(c.ip.read(c.st, t), v))
    return UNIT


# ---- vectors and slices
for _n in ('std::vec::Vec::len', 'core::slice::len', 'std::slice::len', 'std::collections::VecDeque::len', 'core::str::len', 'std::string::String::len', 'std::iter::ExactSizeIterator::len'):
    EXACT[_n] = lambda c: (lambda v: sub(v.args[3], v.args[2]) if is_it(v) else length(str_of(v)))(c.v(0))
EXACT['std::collections::HashSet::len'] = lambda c: atom(mk('len', mk('app', 'iter', c.v(0))))


@model('std::vec::Vec::push', 'std::collections::VecDeque::push_back')
def _push(c):
    t = c.target(0)
    old = c.ip.read(c.st, t)
    c.ip.write(c.st, t, cat(seq_of(old), unit(c.a[1])))
    return UNIT


@model('std::collections::VecDeque::push_front')
def _pushf(c):
    t = c.target(0)
    c.ip.write(c.st, t, cat(unit(c.a[1]), seq_of(c.ip.read(c.st, t))))
    return UNIT


@model('std::vec::Vec::pop', 'std::collections::VecDeque::pop_back')
def _pop(c):
    t = c.target(0)
    s = seq_of(c.ip.read(c.st, t))
    return popper(c, t, s, True)


def popper(c, t, s, back):
    n = length(s)
    if s.op == 'ite':
        r = mk_ite(s.args[0], [BOT if k is BOT else _pop1(k, back)[0] for k in s.args[1:]])
        w = mk_ite(s.args[0], [BOT if k is BOT else _pop1(k, back)[1] for k in s.args[1:]])
    else:
        r, w = _pop1(s, back)
    c.ip.write(c.st, t, w)
    return r


def _pop1(s, back):
    n = length(s)
    g = int_pos(n)
    if g is FALSE:
        return none(), NIL
    m = sub(n, ONE)
    if back:
        return ite(g, some(get(s, m)), none()), ite(g, sub_(s, ZERO, m), s)
    return ite(g, some(get(s, ZERO)), none()), ite(g, sub_(s, ONE, m), s)


EXACT['std::collections::VecDeque::pop_front'] = lambda c: popper(c, c.target(0), seq_of(c.v(0)), False)


@model('std::vec::Vec::insert', 'std::collections::VecDeque::insert')
def _insert(c):
    t = c.target(0)
    s = seq_of(c.ip.read(c.st, t))
    i = c.v(1)
    n = length(s)
    c.ip.write(c.st, t, cat(sub_(s, ZERO, i), unit(c.a[2]), sub_(s, i, sub(n, i))))
    return UNIT


@model('std::vec::Vec::remove', 'std::collections::VecDeque::remove')
def _remove(c):
    t = c.target(0)
    s = seq_of(c.ip.read(c.st, t))
    i = c.v(1)
    n = length(s)
    x = get(s, i)
    r = cat(sub_(s, ZERO, i), sub_(s, add(i, ONE), sub(n, add(i, ONE))))
    if 'VecDeque' in c.path:
        g = int_lt(i, n)
        c.ip.write(c.st, t, ite(g, r, s))
        return ite(g, some(x), none())
    c.ip.write(c.st, t, r)
    return x


@model('std::vec::Vec::truncate', 'std::collections::VecDeque::truncate')
def _truncate(c):
    t = c.target(0)
    s = seq_of(c.ip.read(c.st, t))
    n = c.v(1)
    if any(p.op == 'unit' and p.args[0].op in ('lit', 'fmt') for p in (s.args if s.op == 'cat' else [s])):
        c.ip.write(c.st, t, unit(mk('bytes', 'truncate', s, n)))
        return UNIT
    l = length(s)
    c.ip.write(c.st, t, ite(int_lt(n, l), sub_(s, ZERO, n), s))
    return UNIT


@model('std::vec::Vec::resize')
def _resize(c):
    t = c.target(0)
    s = seq_of(c.ip.read(c.st, t))
    n, v = c.v(1), c.a[2]
    if any(p.op == 'unit' and p.args[0].op in ('lit', 'fmt', 'bytes') for p in (s.args if s.op == 'cat' else [s])):
        c.ip.write(c.st, t, unit(mk('bytes', 'resize', s, n)))
        return UNIT
    l = length(s)
    c.ip.write(c.st, t, ite(int_lt(n, l), sub_(s, ZERO, n), cat(s, comp(sub(n, l), lambda i: v))))
    return UNIT


@model('std::vec::Vec::clear', 'std::collections::VecDeque::clear', 'std::string::String::clear')
def _clear(c):
    c.set(0, NIL)
    return UNIT


@model('std::vec::Vec::append', 'std::collections::VecDeque::append')
def _append(c):
    t, u = c.target(0), c.target(1)
    s, x = c.ip.read(c.st, t), c.ip.read(c.st, u)
    c.ip.write(c.st, t, cat(s, x))
    c.ip.write(c.st, u, NIL)
    return UNIT


@model('std::vec::Vec::extend_from_slice')
def _extslice(c):
    t = c.target(0)
    c.ip.write(c.st, t, cat(seq_of(c.ip.read(c.st, t)), seq_of(c.v(1))))
    return UNIT


@model('std::iter::Extend::extend')
def _extend(c):
    t = c.target(0)
    it = to_it(c.ip, c.st, c.a[1])
    old = seq_of(c.ip.read(c.st, t))
    s = rest(it)
    s = map_(s, lambda e: c.ip.deref(c.st, e)) if has_refs(s) else s
    c.ip.write(c.st, t, cat(old, s))
    return UNIT


def has_refs(s):
    sm = elem_sample(s)
    if s.op == 'ite':
        return any(has_refs(k) for k in s.args[1:] if k is not BOT)
    if s.op == 'cat':
        return any(has_refs(k) for k in s.args)
    if s.op == 'unit':
        return s.args[0].op in ('rv', 'ref')
    if s.op == 'comp':
        b = s.args[1].args[1]
        return any(x.op in ('rv', 'ref') for x in loops.leaves(b))
    if s.op == 'flat':
        return has_refs(s.args[1].args[1])
    return sm.op == 'rv'


@model('std::vec::from_elem')
def _fromelem(c):
    v = c.a[0]
    return comp(c.v(1), lambda i: v)


@model('core::slice::reverse', 'std::slice::reverse')
def _reverse(c):
    t = c.target(0)
    c.ip.write(c.st, t, rev_(seq_of(c.ip.read(c.st, t))))
    return UNIT


@model('core::slice::swap', 'std::vec::Vec::swap', 'std::slice::swap', 'std::collections::VecDeque::swap')
def _sswap(c):
    t = c.target(0)
    s = seq_of(c.ip.read(c.st, t))
    i, j = c.v(1), c.v(2)
    x, y = get(s, i), get(s, j)
    c.ip.write(c.st, t, setseq(setseq(s, i, y), j, x))
    return UNIT


@model('core::slice::fill', 'std::slice::fill')
def _fill(c):
    t = c.target(0)
    s = seq_of(c.ip.read(c.st, t))
    v = c.a[1]
    c.ip.write(c.st, t, comp(length(s), lambda i: v))
    return UNIT


@model('core::slice::copy_from_slice', 'core::slice::clone_from_slice')
def _copyfs(c):
    t = c.target(0)
    c.ip.write(c.st, t, seq_of(c.v(1)))
    return UNIT


def _first_last(which_, mut=False):
    def f(c):
        s = seq_of(c.v(0))
        n = length(s)
        i = ZERO if which_ == 'first' else sub(n, ONE)
        g = int_pos(n)
        if g is FALSE:
            return none()
        if mut:
            t = c.target(0)
            return ite(g, some(mk('ref', t.args[0], t.args[1] + (('i', i),))), none())
        return ite(g, some(mk('rv', get(s, i))), none())
    return f


for _p in ('core::slice::', 'std::slice::'):
    EXACT[_p + 'first'] = _first_last('first')
    EXACT[_p + 'last'] = _first_last('last')
    EXACT[_p + 'last_mut'] = _first_last('last', True)
    EXACT[_p + 'first_mut'] = _first_last('first', True)
EXACT['std::collections::VecDeque::front'] = _first_last('first')
EXACT['std::collections::VecDeque::back'] = _first_last('last')


@model('core::slice::get', 'std::slice::get', 'std::collections::VecDeque::get', 'core::slice::get_unchecked')
def _get(c):
    s = seq_of(c.v(0))
    i = c.v(1)
    if i.op == 'agg':
        a, n = range_bounds(i, length(s))
        return ite(int_le(add(a, n), length(s)), some(mk('rv', sub_(s, a, n))), none())
    if c.path.endswith('unchecked'):
        return mk('rv', get(s, i))
    g = int_lt(i, length(s))
    return ite(g, some(mk('rv', get(s, i))), none()) if g is not FALSE else none()


@model('core::slice::get_mut', 'std::slice::get_mut', 'std::collections::VecDeque::get_mut')
def _getmut(c):
    s = seq_of(c.v(0))
    i = c.v(1)
    t = c.target(0)
    g = int_lt(i, length(s))
    return ite(g, some(mk('ref', t.args[0], t.args[1] + (('i', i),))), none())


@model('core::slice::split_at', 'std::slice::split_at')
def _splitat(c):
    s = seq_of(c.v(0))
    i = c.v(1)
    return agg('tuple', mk('rv', sub_(s, ZERO, i)), mk('rv', sub_(s, i, sub(length(s), i))))


@model('core::slice::split_first', 'core::slice::split_last')
def _splitf(c):
    s = seq_of(c.v(0))
    n = length(s)
    m = sub(n, ONE)
    x = agg('tuple', mk('rv', get(s, ZERO)), mk('rv', sub_(s, ONE, m))) if c.path.endswith('first') else \
        agg('tuple', mk('rv', get(s, m)), mk('rv', sub_(s, ZERO, m)))
    return ite(int_pos(n), some(x), none())


@model('std::vec::Vec::split_off')
def _splitoff(c):
    t = c.target(0)
    s = seq_of(c.ip.read(c.st, t))
    i = c.v(1)
    c.ip.write(c.st, t, sub_(s, ZERO, i))
    return sub_(s, i, sub(length(s), i))


@model('std::vec::Vec::drain', 'std::collections::VecDeque::drain')
def _drain(c):
    t = c.target(0)
    s = seq_of(c.ip.read(c.st, t))
    a, n = range_bounds(c.v(1), length(s))
    e = add(a, n)
    c.ip.write(c.st, t, cat(sub_(s, ZERO, a), sub_(s, e, sub(length(s), e))))
    return It(sub_(s, a, n))


@model('core::slice::concat', 'std::slice::concat')
def _concat(c):
    return fmap_(seq_of(c.v(0)), lambda e: seq_of(c.ip.deref(c.st, e)))


@model('std::slice::join', 'core::slice::join')
def _join(c):
    s = seq_of(c.v(0))
    sep = c.v(1)
    n = length(s)
    return flat(n, lambda i: cat(ite(int_pos(i), sep, NIL), seq_of(c.ip.deref(c.st, get(s, i)))))


def lam_fresh(ip, st, sample, k, f):
    """lambda over k symbolic elements shaped like sample; f receives their values"""
    vs = [fresh('x') for _ in range(k)]
    els = [elem_like(sample, v) for v in vs]
    return lam(vs, f(*els))


def with_tmp(ip, st, els):
    rs = []
    for e in els:
        ip.fid += 1
        r = 'tmpv%d' % ip.fid
        st[r] = e
        rs.append(r)
    return rs


def _relation(op, k, mutargs):
    def f(c):
        ip, st = c.ip, c.st
        t = c.target(0)
        s = seq_of(ip.read(st, t))
        sm = elem_sample(s)
        if s is NIL:
            return UNIT
        if sm is NOSHAPE:
            raise U('%s of unknown elements' % op)

        def body(*els):
            st2 = dict(st)
            if mutargs:
                rs = with_tmp(ip, st2, els)
                return ip.apply(c.a[1], [mk('ref', r, ()) for r in rs], st2)
            return ip.apply(c.a[1], [mk('rv', e) for e in els], st2)
        def known(q):
            """the elements kept, where the list is written out and the relation is decided"""
            els = written_out(q)
            if els is not None and op == 'sort' and len(els) <= 64:
                return sorted_by(els, body)
            if els is None or op not in ('dedup', 'dedupkey') or len(els) > 64:
                return None
            kept = []
            for x in els:
                if kept:
                    b = body(x, kept[-1]) if op == 'dedup' else same_key(body(x), body(kept[-1]))
                    if b is TRUE:
                        continue
                    if b is not FALSE:
                        return None
                kept.append(x)
            return cat(*[unit(x) for x in kept]) if kept else NIL

        l = None

        def leaf(q):
            nonlocal l
            r = known(q)
            if r is not None:
                return r
            if l is None:
                l = lam_fresh(ip, st, sm, k, body)
            return base(mk('app', op, q, l), sm)
        ip.write(st, t, lift_leaves(leaf, s))
        return UNIT
    return f


def sorted_by(els, body):
    """stable sort by a comparison that is decided for every pair it meets, or None"""
    out = []
    for x in els:
        i = len(out)
        while i > 0:
            r = body(out[i - 1], x)
            if r.op != 'enum' or r.args[0] != ORD:
                return None
            if r.args[1] != 2:
                break
            i -= 1
        out.insert(i, x)
    return cat(*[unit(x) for x in out]) if out else NIL


def same_key(a, b):
    x, y = cval(a), cval(b)
    if x is not None and y is not None and x != y:
        return FALSE
    return TRUE if a is b else None


def written_out(q):
    if q is NIL:
        return []
    if q.op == 'unit':
        return [q.args[0]]
    if q.op == 'cat' and all(x.op == 'unit' for x in q.args):
        return [x.args[0] for x in q.args]
    return None


for _p in ('std::vec::Vec::', 'core::slice::', 'std::slice::', 'std::collections::VecDeque::'):
    EXACT[_p + 'dedup_by'] = _relation('dedup', 2, True)
    EXACT[_p + 'sort_by'] = _relation('sort', 2, False)
    EXACT[_p + 'sort_unstable_by'] = _relation('sort', 2, False)
    EXACT[_p + 'dedup_by_key'] = _relation('dedupkey', 1, True)
    EXACT[_p + 'sort_by_key'] = _relation('sortkey', 1, False)


def constants(q):
    """the numbers of a list that is written out, or None"""
    els = written_out(q)
    if els is None:
        return None
    vs = [cval(e) for e in els]
    return None if any(v is None for v in vs) else vs


@model('std::slice::sort', 'core::slice::sort', 'core::slice::sort_unstable', 'std::slice::sort_unstable')
def _sort(c):
    t = c.target(0)
    s = seq_of(c.ip.read(c.st, t))

    def leaf(q):
        if q.op == 'unit' or q is NIL:
            return q
        vs = constants(q)
        if vs is not None:
            return cat(*[unit(const(v)) for v in sorted(vs)])
        return base(mk('app', 'sort', q), elem_sample(q))
    c.ip.write(c.st, t, lift_leaves(leaf, s))
    return UNIT


@model('std::vec::Vec::dedup')
def _dedup(c):
    t = c.target(0)
    s = seq_of(c.ip.read(c.st, t))
    c.ip.write(c.st, t, lift_leaves(lambda q: base(mk('app', 'dedupeq', q), elem_sample(q)), s))
    return UNIT


@model('std::vec::Vec::retain', 'std::collections::VecDeque::retain')
def _retain(c):
    t = c.target(0)
    s = seq_of(c.ip.read(c.st, t))
    m = mapper(c.ip, c.st, c.a[1], lambda e: [mk('rv', e)])
    c.ip.write(c.st, t, fmap_(s, lambda e: ite(m(e), unit(e), NIL)))
    return UNIT


@model('core::slice::binary_search', 'std::slice::binary_search', 'std::collections::VecDeque::binary_search')
def _bsearch(c):
    s, x = c.v(0), c.v(1)
    k, vs = cval(x), constants(seq_of(s))
    if k is not None and vs is not None and vs == sorted(set(vs)):
        import bisect
        i = bisect.bisect_left(vs, k)
        return ok(const(i)) if i < len(vs) and vs[i] == k else enum(RES, 1, const(i))
    t = mk('app', 'bsearch', s, x)
    return ite(variant_cond(t, 1), enum(RES, 1, atom(proj_(mk('dc', t, 1), (0,)))), ok(atom(proj_(mk('dc', t, 0), (0,)))))


@model('core::slice::contains', 'std::slice::contains', 'std::collections::VecDeque::contains')
def _contains(c):
    s, x = seq_of(c.v(0)), c.v(1)
    v = fresh('n', ZERO, sub(length(s), ONE))
    e = equal_val(c.ip.deref(c.st, get(s, atom(v))), x, c.prim(1) in ('f64', 'f32'))
    if e is None:
        return None
    n = length(s)
    return int_lt(first_v(n, v, e), n)


@model('std::collections::VecDeque::swap_remove_front', 'std::collections::VecDeque::swap_remove_back', 'std::vec::Vec::swap_remove')
def _swaprm(c):
    t = c.target(0)
    s = seq_of(c.ip.read(c.st, t))
    i = c.v(1)
    x = get(s, i)
    nm = last_name(c.path)
    els, k = written_out(s), cval(i)
    if els is not None and k is not None:
        if k >= len(els):
            return BOT if nm == 'swap_remove' else none()
        els, k = list(els), int(k)
        if nm == 'swap_remove_front':
            els[k] = els[0]
            del els[0]
        else:
            els[k] = els[-1]
            del els[-1]
        c.ip.write(c.st, t, cat(*[unit(e) for e in els]) if els else NIL)
        return x if nm == 'swap_remove' else some(x)
    c.ip.write(c.st, t, lift_leaves(lambda q: base(mk('app', nm, q, i), elem_sample(q)), s))
    return x if nm == 'swap_remove' else some(x)


@model('std::collections::VecDeque::iter', 'core::slice::iter', 'std::slice::iter', 'std::vec::Vec::iter')
def _iter(c):
    return to_it(c.ip, c.st, mk('rv', c.v(0)))


@model('core::slice::iter_mut', 'std::slice::iter_mut', 'std::collections::VecDeque::iter_mut')
def _itermut(c):
    return to_it(c.ip, c.st, c.target(0))


EXACT['std::collections::HashSet::iter'] = lambda c: to_it(c.ip, c.st, mk('rv', c.v(0)))


@model('core::slice::windows', 'std::slice::windows')
def _windows(c):
    s = seq_of(c.v(0))
    w = c.v(1)

    def one(q):
        n = sub(length(q), sub(w, ONE))
        return comp(max0(n), lambda i: mk('rv', sub_(q, i, w)))
    return It(lift_leaves(one, s))


@model('core::slice::chunks', 'core::slice::chunks_exact', 'std::slice::chunks', 'std::slice::chunks_exact', 'core::slice::array_chunks', 'core::slice::as_chunks')
def _chunks(c):
    s = seq_of(c.v(0))
    w = c.v(1)
    if not is_seq(s):
        return None

    def one(q):
        n = divmod_t(length(q), w)[0]
        return lift_leaves(lambda m: comp(m, lambda i: mk('rv', sub_(q, mul(i, w), w))), n)
    return It(lift_leaves(one, s))


@model('core::slice::chunks_mut', 'core::slice::chunks_exact_mut')
def _chunks_mut(c):
    t = c.target(0)
    s = seq_of(c.ip.read(c.st, t))
    w = c.v(1)
    if t.op != 'ref' or not is_seq(s):
        return None
    n = divmod_t(length(s), w)[0]
    return It(lift_leaves(lambda m: comp(m, lambda i: mk('ref', t.args[0], t.args[1] + (('sl', mul(i, w), w),))), n))


@model('std::array::map', 'core::array::map')
def _array_map(c):
    s = seq_of(c.a[0])
    ks = written_out(s)
    if ks is None:
        return None
    out = NIL
    for k in ks:
        out = cat(out, unit(c.ip.apply(c.a[1], [k], c.st)))
    return out


@model('std::iter::repeat')
def _repeat(c):
    v = c.a[0]
    return It(comp(INF, lambda i: v))


@model('std::iter::repeat_n')
def _repeatn(c):
    v = c.a[0]
    return It(comp(c.v(1), lambda i: v))


@model('std::iter::once')
def _once(c):
    return It(unit(c.a[0]))


EXACT['std::iter::empty'] = lambda c: It(NIL)
EXACT['std::ops::RangeInclusive::new'] = lambda c: agg('std::ops::RangeInclusive', c.a[0], c.a[1])


@model('std::ops::RangeInclusive::start', 'std::ops::RangeInclusive::end')
def _ristart(c):
    return mk('rv', c.v(0).args[1 if c.path.endswith('start') else 2])


@model('std::ops::Range::contains', 'std::ops::RangeInclusive::contains', 'std::ops::RangeBounds::contains')
def _rcontains(c):
    r, x = c.v(0), c.v(1)
    isf = c.prim(1) in ('f64', 'f32')
    le, lt = (real_le, real_lt) if isf else (int_le, int_lt)
    up = lt if last_name(str(r.args[0])) == 'Range' else le
    return b_and(le(r.args[1], x), up(x, r.args[2]))


EXACT['std::ops::Range::is_empty'] = lambda c: int_le(c.v(0).args[2], c.v(0).args[1])


@model('std::iter::IntoIterator::into_iter')
def _intoiter(c):
    ip = c.ip
    v = c.a[0]
    if v.op == 'ref':
        inner = ip.read(c.st, v)
        while inner.op == 'ref':
            v = inner
            inner = ip.read(c.st, v)
        if is_it(inner) or (inner.op == 'agg' and last_name(str(inner.args[0])) in RANGES):
            return v            # &mut iterator
    if v.op == 'rv' and v.args[0].op == 'agg' and not is_it(v.args[0]) and v.args[0].args[0] not in ('grid',) and last_name(str(v.args[0].args[0])) not in RANGES:
        # &LocalType: its own IntoIterator
        n = v.args[0].args[0]
        for f in ip.p.d['fns']:
            if f['path'].endswith('IntoIterator>::into_iter') and n in f['path']:
                return ip.run_body(f, [v], c.st)
    if v.op == 'agg' and not is_it(v) and last_name(str(v.args[0])) not in RANGES + ('grid',):
        return v
    t = c.aty(0)
    if t and t['k'] == 'adt' and t['n'] in (OPT, RES) and not is_enumish(v):
        v = expand(ip, v, _noref(c, 0), t['n'])
    return to_it(ip, c.st, v)


@model('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')
def _next(c):
    return it_next(c.ip, c.st, c.a[0], c.path.endswith('back'))


def IT(c, i=0):
    """iterator argument (by value or by &mut)"""
    v = c.a[i]
    if v.op == 'ref':
        inner = c.ip.read(c.st, v)
        while inner.op == 'ref':
            v = inner
            inner = c.ip.read(c.st, v)
        if is_it(inner):
            return inner
        return to_it(c.ip, c.st, inner if inner.op == 'agg' and last_name(str(inner.args[0])) in RANGES else v)
    if is_it(v):
        return v
    if v.op == 'agg' and last_name(str(v.args[0])) not in RANGES + ('grid',):
        raise U('iterator ' + str(v.args[0]))
    return to_it(c.ip, c.st, v)


def consume(c, i=0, pos=None):
    """advance a by-reference iterator argument"""
    v = c.a[i]
    if v.op == 'ref':
        t = inner_ref(c.ip, c.st, v)
        it = c.ip.read(c.st, t)
        if is_it(it):
            c.ip.write(c.st, t, agg('It', it.args[1], pos if pos is not None else it.args[3], it.args[3]))


def itm(name):
    def d(f):
        EXACT['std::iter::Iterator::' + name] = f
        return f
    return d


@itm('map')
def _map(c):
    return It(seq_map(c.ip, c.st, c.a[1], rest(IT(c))))


@itm('inspect')
def _inspect(c):
    return IT(c)


@itm('enumerate')
def _enumerate(c):
    s = rest(IT(c))
    return It(lift_leaves(lambda q: comp(length(q), lambda i: agg('tuple', i, get(q, i))), s))


@itm('zip')
def _zip(c):
    a, b = rest(IT(c)), rest(IT(c, 1))
    n = tmin2(length(a), length(b))
    return It(comp(n, lambda i: agg('tuple', get(a, i), get(b, i))))


EXACT['std::iter::zip'] = _zip


def tmin2(a, b):
    if a is b:
        return a
    if a is INF:
        return b
    if b is INF:
        return a
    if a.op == 'rat' and b.op == 'rat':
        if T_._le(a, b):
            return a
        if T_._le(b, a):
            return b
    return tmin(a, b)


@itm('rev')
def _rev(c):
    return It(rev_(rest(IT(c))))


@itm('take')
def _take(c):
    s = rest(IT(c))
    n = c.v(1)
    return It(lift_leaves(lambda q: take_(q, tmin2(n, length(q))), s))


@itm('skip')
def _skip(c):
    s = rest(IT(c))
    n = c.v(1)

    def one(q):
        l = length(q)
        if l is INF:
            return comp(INF, lambda i: get(q, add(i, n)))
        m = tmin2(n, l)
        return sub_(q, m, sub(l, m))
    return It(lift_leaves(one, s))


@itm('step_by')
def _stepby(c):
    s = rest(IT(c))
    n = c.v(1)

    def one(q):
        l = length(q)
        return comp(divmod_t(add(l, sub(n, ONE)), n)[0], lambda i: get(q, mul(i, n)))
    return It(lift_leaves(one, s))


@itm('chain')
def _chain(c):
    return It(cat(rest(IT(c)), rest(IT(c, 1))))


@itm('cycle')
def _cycle(c):
    s = rest(IT(c))
    n = length(s)
    return It(comp(INF, lambda i: get(s, divmod_t(i, n)[1])))


def elem_seq(c, e):
    """elements of an inner iterable"""
    return rest(to_it(c.ip, c.st, e))


@itm('flatten')
def _flatten(c):
    return It(fmap_(rest(IT(c)), lambda e: elem_seq(c, e)))


@itm('flat_map')
def _flatmap(c):
    return It(seq_fmap(c.ip, c.st, c.a[1], rest(IT(c)), lambda r, e: BOT if r is BOT else elem_seq(c, r)))


@itm('filter')
def _filter(c):
    return It(seq_fmap(c.ip, c.st, c.a[1], rest(IT(c)), lambda r, e: ite(r, unit(e), NIL), lambda e: [mk('rv', e)]))


def opt_leafs(ip, r):
    if r is BOT:
        return r
    return expand(ip, r, None, OPT)


@itm('filter_map')
def _filtermap(c):
    def post(r, e):
        o = opt_leafs(c.ip, r)
        return lift_leaves(lambda x: unit(x.args[2]) if x.args[1] == 1 else NIL, o)
    return It(seq_fmap(c.ip, c.st, c.a[1], rest(IT(c)), post))


EXACT['std::iter::Iterator::cloned'] = EXACT['std::iter::Iterator::copied'] = lambda c: It(map_(rest(IT(c)), lambda e: c.ip.deref(c.st, e)))
EXACT['std::iter::Iterator::peekable'] = EXACT['std::iter::Iterator::fuse'] = lambda c: IT(c)


@itm('take_while')
def _takewhile(c):
    s = rest(IT(c))
    m = mapper(c.ip, c.st, c.a[1], lambda e: [mk('rv', e)])

    def one(q):
        n = length(q)
        return take_(q, first(n, lambda i: b_not(m(get(q, i)))))
    return It(lift_leaves(one, s))


@itm('map_while')
def _mapwhile(c):
    def post(r, e):
        o = opt_leafs(c.ip, r)
        return lift_leaves(lambda x: unit(x), o)
    s = seq_fmap(c.ip, c.st, c.a[1], rest(IT(c)), post)

    def one(q):
        n = length(q)
        k = first(n, lambda i: which(get(q, i), 0))
        return map_(take_(q, k), lambda o: pay(o, 1))
    return It(lift_leaves(one, s))


@itm('skip_while')
def _skipwhile(c):
    s = rest(IT(c))
    m = mapper(c.ip, c.st, c.a[1], lambda e: [mk('rv', e)])

    def one(q):
        n = length(q)
        a = first(n, lambda i: b_not(m(get(q, i))))
        return lift_leaves(lambda x: sub_(q, x, sub(n, x)), a)
    return It(lift_leaves(one, s))


@itm('count')
def _count(c):
    return length(rest(IT(c)))


@itm('sum')
def _sum(c):
    s = rest(IT(c))
    r = sum_seq(c.ip, s)
    if r is ZERO and c.dty is not None:
        t = c.ip.ty(c.dty)
        d = default_of(c.ip, t)
        if d is not None:
            return d
    return r


@itm('last')
def _last(c):
    s = rest(IT(c))
    n = length(s)
    return ite(int_pos(n), some(get(s, sub(n, ONE))), none())


@itm('nth')
def _nth(c):
    it = IT(c)
    s = rest(it)
    i = c.v(1)
    g = int_lt(i, length(s))
    consume(c, 0, tmin(add(it.args[2], add(i, ONE)), it.args[3]))
    return ite(g, some(get(s, i)), none()) if g is not FALSE else none()


def search(c, s, m, back=False):
    """position of the first/last element satisfying m, as (found, index)"""
    def one(q):
        n = length(q)
        els = written_out(q)
        if els is not None and len(els) <= 64:
            for i in range(len(els)):
                j = len(els) - 1 - i if back else i
                b = m(els[j])
                if b is TRUE:
                    return agg('tuple', TRUE, const(j))
                if b is not FALSE:
                    break
            else:
                return agg('tuple', FALSE, sub(sub(n, ONE), n) if back else n)
        if back:
            i = first(n, lambda j: m(get(q, sub(sub(n, ONE), j))))
            return agg('tuple', int_lt(i, n), sub(sub(n, ONE), i))
        i = first(n, lambda j: m(get(q, j)))
        return agg('tuple', int_lt(i, n), i)
    return lift_leaves(one, s)


def flat_s(s):
    return s


@itm('position')
def _position(c):
    it = IT(c)
    m = mapper(c.ip, c.st, c.a[1])
    r = search(c, rest(it), m)
    consume(c)
    return ite(r.args[1], some(r.args[2]), none())


@itm('rposition')
def _rposition(c):
    m = mapper(c.ip, c.st, c.a[1])
    r = search(c, rest(IT(c)), m, True)
    consume(c)
    return ite(r.args[1], some(r.args[2]), none())


@itm('find')
def _find(c):
    s = rest(IT(c))
    m = mapper(c.ip, c.st, c.a[1], lambda e: [mk('rv', e)])
    r = search(c, s, m)
    consume(c)
    return ite(r.args[1], some(get(s, r.args[2])), none())


@itm('rfind')
def _rfind(c):
    s = rest(IT(c))
    m = mapper(c.ip, c.st, c.a[1], lambda e: [mk('rv', e)])
    r = search(c, s, m, True)
    return ite(r.args[1], some(get(s, r.args[2])), none())


@itm('find_map')
def _findmap(c):
    s = rest(IT(c))
    m = mapper(c.ip, c.st, c.a[1])
    f = lambda e: opt_leafs(c.ip, m(e))
    parts = s.args if s.op == 'cat' else [s]
    out = none()
    if s.op == 'ite':
        return lift_leaves(lambda q: _findmap_seq(f, q), s)
    return _findmap_seq(f, s)


def _findmap_seq(f, s):
    parts = s.args if s.op == 'cat' else [s]
    out = none()
    for p in reversed(parts):
        if p.op == 'unit':
            o = f(p.args[0])
            out = ite(which(o, 1), o, out)
        else:
            n = length(p)
            i = first(n, lambda j: which(f(get(p, j)), 1))
            out = ite(int_lt(i, n), some(pay(f(get(p, i)), 1)), out)
    return out


@itm('any')
def _any(c):
    m = mapper(c.ip, c.st, c.a[1])
    r = search(c, rest(IT(c)), m)
    consume(c)
    return r.args[1]


@itm('all')
def _all(c):
    m = mapper(c.ip, c.st, c.a[1])
    r = search(c, rest(IT(c)), lambda e: b_not(m(e)))
    consume(c)
    return b_not(r.args[1])


@itm('for_each')
def _foreach(c):
    s = rest(IT(c))
    synth(c.ip, c.st, s, lambda e, st2: (c.ip.apply(c.a[1], [e], st2), None)[1])
    return UNIT


def stepping(ip, st, s, begin, step):
    """loop over s that ends at the first round whose result is a failure: (result, failed?)"""
    ip.fid += 1
    idx, acc, out = ['stp%d.%s' % (ip.fid, x) for x in 'iar']
    st[idx], st[acc], st[out] = ZERO, begin, UNIT
    n = length(s)

    def run(s0):
        s1 = dict(s0)
        g = int_lt(s0[idx], n)
        back, exits = [], [('X', b_not(g), dict(s0))]
        if g is not FALSE:
            r = opt_leafs(ip, step(get(s, s0[idx]), s0[acc], s1))
            if r is BOT:
                return [], exits
            bad = lift_leaves(lambda x: TRUE if (x.args[0] == OPT) == (x.args[1] == 0) else FALSE, r)
            good = b_not(bad)
            if bad is not FALSE:
                s2 = dict(s1)
                s2[out] = restrict(r, bad)
                exits.append(('E', b_and(g, bad), s2))
            if good is not FALSE:
                v = lift_leaves(lambda x: BOT if (x.args[0] == OPT) == (x.args[1] == 0) else some(x.args[2]), r)
                s1[acc] = pay(restrict(v, good), 1)
                s1[idx] = add(s0[idx], ONE)
                back.append((b_and(g, good), s1))
        return back, exits
    outs = loops.solve(ip, run, dict(st), where=('synthetic', None))
    if not outs:
        raise U('synthetic loop')
    failed = FALSE
    for k, g, s3 in outs:
        if k == 'E':
            failed = b_or(failed, g)
    g, s2 = ip.merge([(g, s3) for _, g, s3 in outs])
    st.clear()
    st.update(s2)
    st.pop(idx)
    return st.pop(acc), st.pop(out), failed


def trying(c, begin, f):
    s = rest(IT(c))
    acc, bad, failed = stepping(c.ip, c.st, s, begin, f)
    name = c.ip.ty(c.dty).get('n') if c.dty is not None else ''
    good = some(acc) if (name or '').endswith('Option') else ok(acc)
    return ite(failed, bad, good)


@itm('try_for_each')
def _tryforeach(c):
    return trying(c, UNIT, lambda e, a, st2: c.ip.apply(c.a[1], [e], st2))


@itm('fold')
def _fold(c):
    s = rest(IT(c))
    ip, st = c.ip, c.st
    ip.fid += 1
    r = 'acc%d' % ip.fid
    st[r] = c.a[1]

    def step(e, st2):
        st2[r] = ip.apply(c.a[2], [st2[r], e], st2)
        return None
    synth(ip, st, s, step)
    return st.pop(r)


@itm('try_fold')
def _tryfold(c):
    return trying(c, c.a[1], lambda e, a, st2: c.ip.apply(c.a[2], [a, e], st2))


@itm('scan')
def _scan(c):
    return None


@itm('product')
def _product(c):
    s = rest(IT(c))
    if s.op == 'unit':
        return c.ip.deref(c.st, s.args[0])
    return None


def cmp_arg(ip, f, st, x, y):
    r = ip.apply(f, [mk('rv', x), mk('rv', y)], dict(st))
    return r


def _minmax(mx, by):
    def f(c):
        ip, st = c.ip, c.st
        s = rest(IT(c))
        if s.op == 'ite' or not is_seq(s):
            return None
        n = length(s)
        v = fresh('n', ZERO, sub(n, ONE))
        e = get(s, atom(v))
        if by == 'cmp':
            # comparator of the form key(a) <=> key(b)
            sm = elem_sample(s)
            x, y = fresh('x'), fresh('x')
            ex, ey = elem_like(shape(e), x), elem_like(shape(e), y)
            r = ip.apply(c.a[1], [mk('rv', ex), mk('rv', ey)], dict(st))
            key = cmp_key(r, x, y)
            if key is None:
                return None
            k = subst_elem(key, x, e, shape(e))
        elif by == 'key':
            k = ip.apply(c.a[1], [mk('rv', e)], dict(st))
        else:
            k = ip.deref(st, e)
        if k.op not in ('rat', 'ite'):
            return None
        # min: first minimum; max: last maximum
        d = neg(k) if mx else k
        a = loops.arg_atom(n, v, d, TRUE, 0 if mx else 1)
        return ite(int_pos(n), some(get(s, a)), none())
    return f


def cmp_key(r, x, y):
    """key term of a comparator that orders by key(x) - key(y)"""
    if r.op == 'ite' and r.args[0].op == 'c_sgn':
        n, z, p = r.args[1:]
        vs = [q.args[1] if q.op == 'enum' else None for q in (n, z, p)]
        t = r.args[0].args[0]
        if vs not in ([0, 1, 2], [2, 1, 0]):
            return None
        if vs == [2, 1, 0]:
            t = neg(t)
        num, den = t.args
        kx = tuple((m, c) for m, c in num if x in T_._pfv(((m, c),)))
        ky = tuple((m, c) for m, c in num if x not in T_._pfv(((m, c),)))
        if any(y in T_._pfv(((m, c),)) for m, c in kx) or den:
            return None
        key = T_._mk_rat(kx, {})
        if subst(key, {x: y}) is not neg(T_._mk_rat(ky, {})):
            return None
        return key
    return None


def subst_elem(key, x, e, sh):
    m = {}
    if e.op == 'rat':
        m[x] = e
    else:
        m[x] = e
    return subst(key, m)


EXACT['std::iter::Iterator::min_by'] = _minmax(False, 'cmp')
EXACT['std::iter::Iterator::max_by'] = _minmax(True, 'cmp')
EXACT['std::iter::Iterator::min_by_key'] = _minmax(False, 'key')
EXACT['std::iter::Iterator::max_by_key'] = _minmax(True, 'key')
EXACT['std::iter::Iterator::min'] = _minmax(False, 'id')
EXACT['std::iter::Iterator::max'] = _minmax(True, 'id')


@itm('unzip')
def _unzip(c):
    s = rest(IT(c))
    return agg('tuple', map_(s, lambda e: e.args[1]), map_(s, lambda e: e.args[2]))


@itm('partition')
def _partition(c):
    s = rest(IT(c))
    m = mapper(c.ip, c.st, c.a[1], lambda e: [mk('rv', e)])
    return agg('tuple', fmap_(s, lambda e: ite(m(e), unit(e), NIL)), fmap_(s, lambda e: ite(m(e), NIL, unit(e))))


@itm('size_hint')
def _sizehint(c):
    n = length(rest(IT(c)))
    return agg('tuple', n, some(n))


@itm('collect')
def _collect(c):
    it = IT(c)
    s = rest(it)
    consume(c)
    ip = c.ip
    ti = c.dty
    t = ip.ty(ti) if ti is not None else c.gty(1)
    return collect_into(c, s, t)


EXACT['std::iter::FromIterator::from_iter'] = lambda c: collect_into(c, rest(to_it(c.ip, c.st, c.a[0])), c.ip.ty(c.dty) if c.dty is not None else c.gty(0))


def collect_into(c, s, t):
    ip = c.ip
    if t and t['k'] == 'adt':
        a = ip.p.adts.get(t['n'])
        if a and a.get('local'):
            for f in ip.p.d['fns']:
                if f['path'].endswith('::from_iter') and f['path'].startswith('<' + t['n']):
                    return ip.run_body(f, [It(s)], c.st)
            return None
        if t['n'] in ('std::vec::Vec', 'std::collections::VecDeque', 'std::boxed::Box'):
            return s
        if t['n'] == 'std::string::String':
            return fmap_(s, lambda e: str_of(ip.deref(c.st, e)))
        if t['n'] in (RES, OPT):
            h = 0 if t['n'] == RES else 1
            ex = lambda e: expand(ip, e, None, t['n'])

            def one(q):
                n = length(q)
                bad = int_lt(first(n, lambda i: b_not(which(ex(get(q, i)), h))), n) if n.op == 'rat' else None
                if bad is None:
                    raise U('collect')
                vals = map_(q, lambda e: pay(ex(e), h))
                good = ok(vals) if h == 0 else some(vals)
                return ite(bad, enum(RES, 1, mk('sym', 'err')) if h == 0 else none(), good)
            return lift_leaves(one, s)
        return None
    return s


# ---- svg documents
def _svgnew(k):
    return lambda c: agg('svg', lit(k), NIL, NIL)


EXACT['svg::node::element::Group::new'] = _svgnew('g')
EXACT['svg::node::element::Path::new'] = _svgnew('path')
EXACT['svg::node::element::SVG::new'] = _svgnew('svg')


def _svgset(c):
    v = c.v(0)
    name, val = c.v(1), c.ip.snap(c.st, c.a[2])
    return agg('svg', v.args[1], cat(v.args[2], unit(agg('tuple', name, val))), v.args[3])


def _svgadd(c):
    v = c.v(0)
    return agg('svg', v.args[1], v.args[2], cat(v.args[3], unit(c.v(1))))


for _n in ('Group', 'Path', 'SVG'):
    EXACT['svg::node::element::%s::set' % _n] = _svgset
    EXACT['svg::node::element::%s::add' % _n] = _svgadd


@model('svg::Node::append')
def _svgappend(c):
    t = c.target(0)
    v = c.ip.read(c.st, t)
    c.ip.write(c.st, t, agg('svg', v.args[1], v.args[2], cat(v.args[3], unit(c.v(1)))))
    return UNIT


@model('svg::Node::assign')
def _svgassign(c):
    t = c.target(0)
    v = c.ip.read(c.st, t)
    c.ip.write(c.st, t, agg('svg', v.args[1], cat(v.args[2], unit(agg('tuple', c.v(1), c.ip.snap(c.st, c.a[2])))), v.args[3]))
    return UNIT


@model('svg::save')
def _svgsave(c):
    fx(c.st, agg('svgsave', c.ip.snap(c.st, c.a[0]), c.v(1)))
    return ok(UNIT)


# ---- STEP entities and dynamic types
@model('iso_10303::step::StepReader::read')
def _stepread(c):
    # the reader's contents become those of the file
    t = c.target(0)
    c.ip.write(c.st, t, mk('app', 'stepfile', c.ip.snap(c.st, c.a[1])))
    return ok(UNIT)


@model('std::fmt::Formatter::write_str', 'std::fmt::Formatter::debug_struct_field1_finish', 'std::fmt::Formatter::debug_struct_field2_finish',
       'std::fmt::Formatter::debug_struct_field3_finish', 'std::fmt::Formatter::debug_struct_field4_finish', 'std::fmt::Formatter::debug_tuple_field1_finish')
def _fmtr(c):
    return ok(UNIT)


@model('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once')
def _fncall(c):
    tup = c.v(1)
    r = c.ip.apply(c.a[0], list(tup.args[1:]), c.st)
    if r.op == 'app' and r.args[0] == 'call' and c.dty is not None:
        r = c.ip.app_value(r, c.dty)
    return r


@model('std::boxed::Box::new_uninit', 'std::mem::MaybeUninit::uninit')
def _uninit(c):
    from interp import UNINIT
    c.ip.fid += 1
    r = 'heap%d' % c.ip.fid
    c.st[r] = UNINIT
    return mk('ref', r, ())


@model('std::boxed::box_assume_init_into_vec_unsafe', 'std::boxed::Box::assume_init')
def _assume_init(c):
    v = c.v(0)
    if c.a[0].op == 'ref' and str(c.a[0].args[0]).startswith('heap'):
        c.st.pop(c.a[0].args[0], None)
    return v


@model('std::path::Path::file_stem', 'std::path::Path::file_name', 'std::path::Path::extension', 'std::path::Path::to_str')
def _pathpart(c):
    x = mk('app', last_name(c.path), c.ip.snap(c.st, c.a[0]))
    return ite(variant_cond(x, 1), some(mk('rv', proj_(mk('dc', x, 1), (0,)))), none())


@model('std::ffi::OsStr::to_string_lossy', 'std::path::Path::to_string_lossy')
def _lossy(c):
    v = c.v(0)
    return base(mk('app', 'lossy', v), mk('shape', 'x'))


@model('std::iter::Iterator::partial_cmp', 'std::iter::Iterator::eq')
def _unk(c):
    return None


SYN = {'alloc::': 'std::', 'core::iter': 'std::iter', 'core::option': 'std::option', 'core::result': 'std::result', 'core::ops': 'std::ops', 'core::cmp': 'std::cmp'}


def call(ip, fnref, path, args, st, dty, atys):
    f = EXACT.get(path)
    if f is None:
        for k, v in SYN.items():
            if path.startswith(k):
                f = EXACT.get(v + path[len(k):])
                if f:
                    break
    if f is None and 'res' in fnref and fnref['res']:
        pass
    if f is None and path.endswith('::downcast_ref'):
        return _downcast(ip, fnref, path, args, st, dty)
    if f is None:
        return None
    c = Ctx(ip, fnref, path, args, st, dty, atys)
    try:
        return f(c)
    except NotScalar as e:
        raise U('%s: %s' % (path, e))


def _downcast(ip, fnref, path, args, st, dty):
    g = [ip.ty(a) for a in (fnref.get('args') or [])]
    nm = ','.join(t.get('s') or '?' for t in g)
    return ip.opaque_call('downcast<%s>' % nm, [ip.snap(st, args[0])], dty, st)


def drop(ip, st, fr, t):
    return
