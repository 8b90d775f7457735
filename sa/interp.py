"""Abstract interpretation of MIR into value graphs.

One forward pass per function over the control-flow graph: states are merged at
join points with the gating conditions (gated single assignment), calls to
functions of the crate are inlined, loops are summarised by `loops.py`.  No path
is enumerated and nothing is executed; unmodelled constructs become marked
opaque terms so that a comparison involving them is never taken as decided.
"""
import re
import struct
from fractions import Fraction

from term import *
import term as T_


FN_CALLS = ('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once')


class Unsupported(Exception):
    pass


class Diverges(Exception):
    pass


UNIT = agg('tuple')
FMAX = atom(mk('sym', 'fmax'))
NAN = atom(mk('sym', 'nan'))
OPT, RES, CF, ORD = 'std::option::Option', 'std::result::Result', 'std::ops::ControlFlow', 'std::cmp::Ordering'
VEC = {'glam::DVec2': 2, 'glam::DVec3': 3, 'glam::DVec4': 4, 'glam::XYZ': 3}


def none():
    return enum(OPT, 0)


def some(v):
    return enum(OPT, 1, v)


def ok(v):
    return enum(RES, 0, v)


_gen = re.compile(r"::<[^<>]*>")


def norm_path(p):
    """drop generic arguments from a path string"""
    # normalise type parameter names inside impl headers is not needed for std
    while True:
        q = _gen.sub('', p)
        if q == p:
            break
        p = q
    # remaining nested ::<...>
    out = []
    i = 0
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            d = 0
            j = i + 2
            while j < len(p):
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


_PI = {}


def _pi_consts():
    import math
    for num, den in [(1, 1), (2, 1), (1, 2), (1, 3), (1, 4), (1, 6), (1, 8), (3, 2), (3, 4), (4, 1), (1, 180)]:
        f = math.pi * num / den
        _PI[struct.pack('<d', f)] = mul(const(Fraction(num, den)), PI)
        _PI[struct.pack('<d', -f)] = mul(const(Fraction(-num, den)), PI)


def float_term(raw):
    if not _PI:
        _pi_consts()
    t = _PI.get(raw)
    if t is not None:
        return t
    f = struct.unpack('<d', raw)[0]
    if f != f:
        return NAN
    if f == float('inf'):
        return FMAX
    if f == float('-inf'):
        return neg(FMAX)
    if f == 1.7976931348623157e308:
        return FMAX
    if f == -1.7976931348623157e308:
        return neg(FMAX)
    return const(Fraction(repr(f)))


class Prog:
    def __init__(self, d):
        self.d = d
        self.types = d['types']
        self.fns = {f['key']: f for f in d['fns']}
        self.by_path = {}
        for f in d['fns']:
            self.by_path.setdefault(f['path'], f)
            f['_loops'] = None
        self.adts = {a['path']: a for a in d['adts']}
        self.norm = {}
        for f in d['fns']:
            f['np'] = norm_path(f['path'])
            self.norm.setdefault(f['np'], []).append(f)

    def ty(self, i):
        return self.types[i]


# ------------------------------------------------------------------------- CFG
def succs(t):
    k = t['k']
    if k == 'goto':
        return [t['t']]
    if k == 'switch':
        r = [b for _, b in t['v']]
        if t['o'] is not None:
            r.append(t['o'])
        return r
    if k in ('call', 'drop', 'assert'):
        return [t['t']] if t.get('t') is not None else []
    if k in ('falseedge', 'falseunwind'):
        return [t['t']]
    return []


class CFG:
    def __init__(self, fn, blocks=None):
        bl = blocks if blocks is not None else fn['blocks']
        self.blocks = bl
        n = len(bl)
        self.succ = [succs(b['t']) if not b.get('cleanup') else [] for b in bl]
        # blocks that can only end in a panic / unreachable are dropped
        seen = set()
        order = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = order
        self.num = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.num[x] > self.num[y]:
                            x = idom[x]
                        while self.num[y] > self.num[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True

        def dom(a, b):
            while b != a:
                if b == 0:
                    return False
                b = idom[b]
            return True
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.num[s] <= self.num[b]:
                    if not dom(s, b):
                        raise Unsupported('irreducible control flow')
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])


# ---------------------------------------------------------------------- interp
class Interp:
    def __init__(self, prog, opaque=(), hooks=None, max_depth=40, dyn_hook=None):
        self.p = prog
        self.opaque = set(opaque)
        self.hooks = hooks or {}
        self.fid = 0
        self.depth = 0
        self.max_depth = max_depth
        self.unmod = []        # unmodelled constructs that were met
        self.analysed = set()  # functions analysed
        self.sites = 0
        self.stack = []
        self.cfgs = {}
        self.dyn_hook = dyn_hook
        self.ext_hook = None    # calls into other crates
        self.loopinfo = []
        self.asserts = None
        self.splits, self.max_splits = 0, None      # branches met that are not decided; how many to bear
        self.attempt = 0       # rounds to try before a loop is summarised
        self.unroll = 0        # rounds up to which loops are unrolled instead of summarised
        import models
        self.models = models

    # -- types
    def ty(self, i):
        return self.p.types[i]

    def is_float(self, ti):
        t = self.ty(ti)
        while t['k'] in ('ref', 'ptr'):
            t = self.ty(t['t'])
        return t['k'] == 'prim' and t['s'] in ('f64', 'f32') or t['k'] == 'param'

    def is_bool(self, ti):
        t = self.ty(ti)
        return t['k'] == 'prim' and t['s'] == 'bool'

    def subst_ty(self, ti, env):
        """type index with parameters replaced, as a ('ty', index) - returns index or None"""
        t = self.ty(ti)
        if t['k'] == 'param':
            return env.get(t['n'], ti)
        return ti

    def havoc(self, ti, t, env=None, depth=0):
        """symbolic value of a type, identified by the term t"""
        if ti is None:
            return t
        ty = self.ty(ti) if isinstance(ti, int) else ti
        k = ty['k']
        if k == 'param':
            if env and ty['n'] in env:
                return self.havoc(env[ty['n']], t, None, depth)
            if ty['n'] in ('S', 'C', 'W', 'F', 'I', 'impl Curve', 'Self'):
                return t
            return atom(t)
        if k == 'prim':
            s = ty['s']
            if s == 'bool':
                return b_atom('val', t)
            if s in ('str',):
                return base(t, mk('shape', 'x'))
            if s == '!':
                return BOT
            if s[0] == 'u' and t.op in ('sym', 'app', 'fv', 'proj', 'idx', 'ext'):
                facts.nonneg.add(t)
            return atom(t)
        if k in ('ref', 'ptr'):
            return mk('rv', self.havoc(ty['t'], t, env, depth))
        if k == 'tuple':
            return agg('tuple', *[self.havoc(a, proj_(t, (i,)), env, depth + 1) for i, a in enumerate(ty['a'])])
        if k in ('slice', 'array'):
            e = self.havoc(ty['t'], mk('shape', 'e'), env, depth + 1)
            s = base(t, shape(e))
            if k == 'array' and str(ty.get('len')).isdigit():
                n = int(ty['len'])
                return cat(*[unit(get(s, const(i))) for i in range(n)])
            return s
        if k == 'adt':
            n = ty['n']
            if n in VEC:
                return agg('vec', *[atom(proj_(t, (i,))) for i in range(VEC[n])])
            if n in ('std::vec::Vec', 'std::collections::VecDeque'):
                e = self.havoc(ty['a'][0], mk('shape', 'e'), env, depth + 1)
                return base(t, shape(e))
            if n in ('std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc'):
                return self.havoc(ty['a'][0], t, env, depth + 1)
            if n == 'grid::Grid':
                e = self.havoc(ty['a'][0], mk('shape', 'e'), env, depth + 1)
                rows, cols = mk('rows', t), mk('cols', t)
                return agg('grid', base(t, shape(e)), atom(rows), atom(cols))
            if n == 'std::string::String':
                return base(t, mk('shape', 'x'))
            if n == 'glam::DMat2':
                return agg('mat2', *[agg('vec', atom(proj_(t, (i, 0))), atom(proj_(t, (i, 1)))) for i in range(2)])
            a = self.p.adts.get(n)
            if a and a.get('local') and a['kind'] == 'struct' and depth < 8:
                e2 = {}
                gs = [g for g in a.get('g', []) if not g.startswith("'")]
                for g, x in zip(gs, ty['a']):
                    x2 = x
                    if env and self.ty(x)['k'] == 'param' and self.ty(x)['n'] in env:
                        x2 = env[self.ty(x)['n']]
                    if not (self.ty(x2)['k'] == 'param'):
                        e2[g] = x2
                return agg(n, *[self.havoc(ft, proj_(t, (i,)), e2, depth + 1) for i, (_, ft) in enumerate(a['variants'][0]['f'])])
            return t
        return t

    # -- places
    def place_ty(self, fr, pl):
        ti = fr.fn['locals'][pl['l']]['ty']
        for el in pl['p']:
            k = el[0]
            if ti is None:
                if k == 'field':
                    ti = el[3]
                continue
            t = self.ty(ti)
            if k == 'deref':
                if t['k'] in ('ref', 'ptr'):
                    ti = t['t']
                elif t['k'] == 'adt' and t['n'] in ('std::boxed::Box', 'std::rc::Rc'):
                    ti = t['a'][0]
                else:
                    ti = None
            elif k == 'field':
                ti = el[3]
            elif k in ('index', 'cidx'):
                if t['k'] in ('slice', 'array'):
                    ti = t['t']
                else:
                    ti = None
            elif k == 'subslice' or k == 'downcast':
                pass
        return ti

    def op_ty(self, fr, op):
        if 'const' in op:
            return op['const']['ty']
        return self.place_ty(fr, op.get('copy') or op.get('move'))

    def proj_elems(self, fr, st, pl):
        """translate MIR projections into path elements"""
        out = []
        dc = None
        ti = fr.fn['locals'][pl['l']]['ty']
        for el in pl['p']:
            k = el[0]
            tc = self.ty(ti) if ti is not None else None
            if k == 'deref':
                out.append(('*',))
                ti = None if tc is None else tc['t'] if tc['k'] in ('ref', 'ptr') else tc['a'][0] if tc.get('n') in ('std::boxed::Box', 'std::rc::Rc') else None
            elif k == 'downcast':
                dc = el[1]
            elif k == 'field':
                ti = el[3]
                if dc is not None:
                    out.append(('df', dc, el[1], el[3]))
                    dc = None
                elif tc is not None and tc.get('n') in BOXLIKE:
                    pass            # a box is its content
                else:
                    out.append(('f', el[1], el[3]))
            elif k == 'index':
                ti = tc['t'] if tc is not None and tc['k'] in ('slice', 'array') else None
                out.append(('i', st[fr.root(el[1])]))
            elif k == 'cidx':
                off, mn, fe = el[1], el[2], el[3]
                ti = tc['t'] if tc is not None and tc['k'] in ('slice', 'array') else None
                out.append(('ci', off, fe))
            elif k == 'subslice':
                out.append(('ss', el[1], el[2], el[3]))
            else:
                raise Unsupported('projection ' + k)
        return out

    def step(self, st, v, el):
        """value-level projection"""
        k = el[0]
        if v is BOT:
            return BOT
        if k == '*':
            if v.op == 'rv':
                return v.args[0]
            if v.op == 'ref':
                return self.read(st, v)
            if v.op == 'ite':
                return mk_ite(v.args[0], [self.step(st, x, el) for x in v.args[1:]])
            return v
        if v.op == 'ite' and not (k in ('i', 'ci', 'ss') and is_seq(v)):
            return mk_ite(v.args[0], [self.step(st, x, el) for x in v.args[1:]])
        if k == 'f':
            if v.op == 'agg':
                if 1 + el[1] >= len(v.args):
                    raise Unsupported('field %s of %s' % (el[1], v.args[0]))
                return v.args[1 + el[1]]
            if v.op == 'rv':  # raw pointer wrappers (Box/Unique) are transparent
                return v
            if is_seq(v) or v.op == 'ref':
                return v
            if v.op == 'rat':
                a = as_atom(v)
                if a is None:
                    raise Unsupported('field of scalar')
                v = a
            return self.havoc(el[2], proj_(v, (el[1],)))
        if k == 'df':
            if v.op == 'enum':
                return v.args[2 + el[2]] if v.args[1] == el[1] else BOT
            if v.op == 'rat':
                v = as_atom(v) or v
            if v.op in ('agg', 'cat', 'comp', 'unit', 'base'):
                raise Unsupported('variant of ' + v.op)
            return self.havoc(el[3], proj_(mk('dc', v, el[1]), (el[2],)))
        if k == 'i':
            return get(v, el[1])
        if k == 'ci':
            n = length(v)
            return get(v, sub(n, const(el[1])) if el[2] else const(el[1]))
        if k == 'ss':
            n = length(v)
            a, b, fe = el[1], el[2], el[3]
            ln = sub(sub(n, const(a)), const(b)) if fe else const(b - a)
            return sub_(v, const(a), ln)
        if k == 'sl':
            return sub_(v, el[1], el[2])
        raise Unsupported('step ' + k)

    def read(self, st, r):
        """read through a ref term"""
        if r.op == 'ite':
            return mk_ite(r.args[0], [BOT if x is BOT else self.read(st, x) for x in r.args[1:]])
        if r.op == 'rv':
            return r.args[0]
        if r.op != 'ref':
            return r
        v = st.get(r.args[0])
        if v is None:
            raise Unsupported('read of dead location ' + str(r.args[0]))
        for el in r.args[1]:
            v = self.step(st, v, el)
        return v

    def write(self, st, r, val):
        if val is BOT:
            # value undefined on every live path
            pass
        if r.op == 'ite':
            g = r
            for kid, b in self.leaves(r):
                if kid is BOT:
                    continue
                old = self.read(st, kid)
                self.write(st, kid, ite(b, val, old))
            return
        if r is BOT:
            return
        if r.op != 'ref':
            raise Unsupported('write through ' + r.op)
        root, path = r.args
        st[root] = self.upd(st, st.get(root), list(path), val)

    def leaves(self, t):
        """distinct leaves with their guards"""
        out = {}

        def walk(x, g):
            if x.op == 'ite':
                c = x.args[0]
                for i, k in enumerate(x.args[1:]):
                    sel = mk_ite(c, [TRUE if j == i else FALSE for j in range(arity(c))])
                    walk(k, b_and(g, sel))
            else:
                out[x] = b_or(out[x], g) if x in out else g
        walk(t, TRUE)
        return list(out.items())

    def upd(self, st, v, path, val):
        if not path:
            return val
        el, rest = path[0], path[1:]
        k = el[0]
        if k == '*':
            if v.op == 'ref' or (v.op == 'ite' and any(x.op == 'ref' for x, _ in self.leaves(v))):
                raise Unsupported('nested mutable reference update')
            return self.upd(st, v, rest, val)
        if v is None:
            raise Unsupported('update of unset location')
        if v is BOT:
            return BOT
        if k == 'f':
            if v.op == 'agg':
                a = list(v.args)
                a[1 + el[1]] = self.upd(st, a[1 + el[1]], rest, val)
                return mk('agg', *a)
            if v.op == 'ite':
                return mk_ite(v.args[0], [self.upd(st, x, path, deep_cof(val, v.args[0], i)) for i, x in enumerate(v.args[1:])])
            if is_seq(v) or v.op in ('rv', 'ref'):
                return self.upd(st, v, rest, val)
            if v is UNINIT:
                return self.upd(st, UNINIT, rest, val)
            raise Unsupported('field update of ' + v.op)
        if k == 'df':
            if v.op == 'ite':
                return mk_ite(v.args[0], [self.upd(st, x, path, deep_cof(val, v.args[0], i)) for i, x in enumerate(v.args[1:])])
            if v.op == 'enum':
                if v.args[1] != el[1]:
                    return BOT
                a = list(v.args)
                a[2 + el[2]] = self.upd(st, a[2 + el[2]], rest, val)
                return enum(*a)
            raise Unsupported('variant update of ' + v.op)
        if k == 'i':
            i = el[1]
            new = val if not rest else self.upd(st, get(v, i), rest, val)
            return setseq(v, i, new)
        if k == 'ci':
            i = sub(length(v), const(el[1])) if el[2] else const(el[1])
            new = val if not rest else self.upd(st, get(v, i), rest, val)
            return setseq(v, i, new)
        if k == 'ss':
            raise Unsupported('subslice update')
        if k == 'sl':  # sub-slice view [a, a+n)
            a, n = el[1], el[2]
            old = sub_(v, a, n)
            new = self.upd(st, old, rest, val)
            return cat(sub_(v, ZERO, a), new, sub_(v, add(a, n), sub(length(v), add(a, n))))
        raise Unsupported('update ' + k)

    def resolve(self, fr, st, pl):
        """place -> ('ref', term) or ('val', value)"""
        cur = mk('ref', fr.root(pl['l']), ())
        val = None
        for el in self.proj_elems(fr, st, pl):
            if val is not None:
                val = self.step(st, val, el)
                if val.op == 'ref':
                    cur, val = val, None
                continue
            if el[0] == '*':
                v = self.read(st, cur)
                if v.op == 'ref':
                    cur = v
                elif v.op == 'rv':
                    val = v.args[0]
                elif v.op == 'ite' and any(x.op == 'ref' for x, _ in self.leaves(v)):
                    if all(x.op == 'ref' or x is BOT for x, _ in self.leaves(v)):
                        cur = v
                    else:
                        val = self.step(st, v, el)
                elif v.op == 'ite' and any(x.op == 'rv' for x, _ in self.leaves(v)):
                    val = self.step(st, v, el)
                else:
                    pass  # Box / raw pointer: transparent
            else:
                cur = lift_leaves(lambda x: mk('ref', x.args[0], x.args[1] + (el,)), cur)
        return ('val', val) if val is not None else ('ref', cur)

    def read_place(self, fr, st, pl):
        if not pl['p']:
            v = st.get(fr.root(pl['l']))
            if v is None:
                raise Unsupported('read of unset local _%d in %s' % (pl['l'], fr.fn['path']))
            return v
        k, x = self.resolve(fr, st, pl)
        return x if k == 'val' else self.read(st, x)

    def operand(self, fr, st, op):
        if 'const' in op:
            return self.const(fr, op['const'])
        return self.read_place(fr, st, op.get('copy') or op.get('move'))

    # -- constants
    def decode(self, ti, raw):
        """value of type from little-endian bytes; returns (value, rest)"""
        ty = self.ty(ti)
        k = ty['k']
        if k == 'prim':
            s = ty['s']
            if s == 'f64':
                return float_term(bytes(raw[:8])), raw[8:]
            if s == 'f32':
                return const(Fraction(repr(struct.unpack('<f', bytes(raw[:4]))[0]))), raw[4:]
            if s == 'bool':
                return (TRUE if raw[0] else FALSE), raw[1:]
            n = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'char': 4, 'u64': 8, 'i64': 8, 'usize': 8, 'isize': 8, 'u128': 16, 'i128': 16}.get(s)
            if n is None:
                raise Unsupported('const of type ' + s)
            return const(int.from_bytes(bytes(raw[:n]), 'little', signed=s[0] == 'i')), raw[n:]
        if k == 'array':
            out = []
            for _ in range(int(ty["len"])):
                v, raw = self.decode(ty['t'], raw)
                out.append(unit(v))
            return cat(*out), raw
        if k == 'tuple':
            out = []
            for a in ty['a']:
                v, raw = self.decode(a, raw)
                out.append(v)
            return agg('tuple', *out), raw
        if k == 'adt' and ty['n'] in VEC:
            n = VEC[ty['n']]
            return agg('vec', *[float_term(bytes(raw[8 * i:8 * i + 8])) for i in range(n)]), raw[8 * n:]
        raise Unsupported('const of type ' + ty['s'])

    def const(self, fr, c):
        if 'fn' in c:
            return self.fn_value(c['fn'])
        ti = c['ty']
        ty = self.ty(ti)
        if 'bits' in c:
            n = int(c['bits'])
            if ty['k'] == 'prim':
                s = ty['s']
                if s == 'bool':
                    return TRUE if n else FALSE
                if s == 'f64':
                    nm = c.get('named') or ''
                    return float_term(struct.pack('<Q', n))
                if s == 'f32':
                    return const(Fraction(repr(struct.unpack('<f', struct.pack('<I', n))[0])))
                if s[0] == 'i':
                    w = c['size'] * 8
                    if n >> (w - 1):
                        n -= 1 << w
                return const(n)
            if ty['k'] == 'adt' and self.p.adts.get(ty['n'], {}).get('kind') == 'enum':
                a = self.p.adts[ty['n']]
                if ty['n'] == ORD:
                    n = (n if n < 128 else n - 256) + 1
                return enum(ty['n'], n)
            return mk('constbits', ty['s'], n)
        if ty['k'] in ('ref', 'ptr'):
            inner = self.ty(ty['t'])
            if 'bytes' in c:
                if inner['k'] == 'prim' and inner['s'] == 'str':
                    return mk('rv', lit(bytes(c['bytes']).decode('utf8', 'replace')))
                if inner['k'] in ('array', 'prim', 'tuple') or (inner['k'] == 'adt' and inner['n'] in VEC):
                    try:
                        return mk('rv', self.decode(ty['t'], c['bytes'])[0])
                    except (Unsupported, IndexError):
                        pass
                if inner['k'] == 'slice':
                    out = []
                    raw = c['bytes']
                    while raw:
                        v, raw = self.decode(inner['t'], raw)
                        out.append(unit(v))
                    return mk('rv', cat(*out))
        if c.get('promoted') is not None:
            owner = self.p.fns.get(c.get('owner'))
            if owner and c['promoted'] < len(owner.get('promoted', [])):
                return self.run_promoted(owner, c['promoted'])
        if 'raw' in c and c['raw'] is not None:
            try:
                return self.decode(ti, c['raw'])[0]
            except (Unsupported, IndexError):
                pass
        if c.get('zst') or ty['k'] == 'tuple' and not ty['a']:
            if ty['k'] == 'closure':
                return agg('closure:' + ty['key'])
            if ty['k'] == 'fndef':
                return self.fn_value(ty)
            return UNIT if ty['k'] == 'tuple' else agg(ty.get('n', ty['s']))
        if ty['k'] == 'adt' and ty['n'] == OPT:
            pass
        named = c.get('named')
        if named and named in self.models.CONSTS:
            return self.models.CONSTS[named]
        return mk('cst', c.get('txt', '?'))

    def fn_value(self, fnref):
        key = fnref.get('key') or fnref.get('path')
        self.models.FNREFS[key] = fnref
        return mk('fnitem', key)

    def run_promoted(self, owner, i):
        body = owner['promoted'][i]
        fn = {'key': owner['key'] + '#p%d' % i, 'path': owner['path'] + '#p%d' % i, 'blocks': body['blocks'], 'locals': body['locals'], 'argc': 0, 'promoted': []}
        st = {}
        return self.run_body(fn, [], st)

    # -- rvalues
    def rvalue(self, fr, st, rv, dest=None):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, st, rv[1])
        if k == 'ref' or k == 'rawptr':
            mut, pl = (rv[1], rv[2]) if k == 'ref' else ('const', rv[1])
            kind, x = self.resolve(fr, st, pl)
            if kind == 'val':
                return mk('rv', x)
            if mut and mut != 'const':
                return x
            return mk('rv', self.read(st, x))
        if k == 'repeat':
            v = self.operand(fr, st, rv[1])
            n = rv[2]
            n = const(n) if isinstance(n, int) else atom(mk('sym', str(n)))
            return comp(n, lambda i: v)
        if k == 'cast':
            v = self.operand(fr, st, rv[2])
            kind = rv[1]
            if kind == 'FloatToFloat':
                if self.ty(rv[4])['s'] == 'f32':
                    return fn('f32', v)
                return v
            if kind == 'FloatToInt':
                return fn('trunc', v)
            if kind == 'Transmute' and self.ty(rv[4])['k'] == 'prim' and v.op in ('ref', 'rv', 'agg', 'uninit'):
                return atom(mk('sym', 'addr'))
            if kind == 'IntToInt':
                fr_, to = self.ty(rv[3])['s'], self.ty(rv[4])['s']
                if fr_ == 'bool' or v in (TRUE, FALSE):
                    return ite(v, ONE, ZERO)
                if v.op == 'ite' and any(x in (TRUE, FALSE) for x, _ in self.leaves(v)):
                    return ite(v, ONE, ZERO)
                if to in ('u16', 'i16') and fr_ in ('usize', 'u64', 'i64', 'isize', 'u32', 'i32', 'u128') and v.op in ('rat', 'ite') and T_.cval(v) is None:
                    return fn('wrap16', v)
                return v
            return v
        if k == 'bin':
            return self.binop(fr, st, rv[1], rv[2], rv[3])
        if k == 'un':
            v = self.operand(fr, st, rv[2])
            if rv[1] == 'Not':
                if self.is_bool(self.op_ty(fr, rv[2])):
                    return b_not(v)
                return fn('bnot', v)
            if rv[1] == 'Neg':
                return neg(v)
            if rv[1] == 'PtrMetadata':
                return self.seqlen(st, v)
            raise Unsupported('unary ' + rv[1])
        if k == 'discr':
            pl = rv[1]
            v = self.read_place(fr, st, pl)
            return self.discr(v, self.place_ty(fr, pl))
        if k == 'agg':
            a = rv[1]
            ops = [self.operand(fr, st, o) for o in rv[2]]
            kk = a['k']
            if kk == 'tuple':
                return agg('tuple', *ops)
            if kk == 'array':
                return cat(*[unit(o) for o in ops])
            if kk == 'closure':
                return agg('closure:' + a['key'], *ops)
            if kk == 'adt':
                n = a['n']
                if n in VEC:
                    return agg('vec', *ops)
                ad = self.p.adts.get(n)
                if (ad and ad['kind'] == 'enum') or n in (OPT, RES, CF, ORD):
                    return enum(n, a['v'], *ops)
                return agg(n, *ops)
            if kk == 'rawptr':
                return ops[0]
            raise Unsupported('aggregate ' + kk)
        if k == 'tls':
            raise Unsupported('thread local')
        raise Unsupported('rvalue ' + k)

    def seqlen(self, st, v):
        v = self.deref(st, v)
        if not is_seq(v) and v is not BOT:
            raise Unsupported('length of ' + v.op)
        return length(v)

    def deref(self, st, v):
        """strip references"""
        for _ in range(10):
            if v.op == 'rv':
                v = v.args[0]
            elif v.op == 'ref':
                v = self.read(st, v)
            elif v.op == 'ite' and any(x.op in ('rv', 'ref') for x, _ in self.leaves(v)):
                v = mk_ite(v.args[0], [self.deref(st, x) for x in v.args[1:]])
                return v
            else:
                return v
        return v

    def discr(self, v, ti):
        ty = self.ty(ti) if ti is not None else None
        name = ty['n'] if ty is not None and ty['k'] == 'adt' else None
        ad = self.p.adts.get(name)
        nv = len(ad['variants']) if ad else 2

        def leaf(x):
            if x.op == 'enum':
                n = x.args[1]
                return const(n - 1 if x.args[0] == ORD else n)
            if x.op == 'rat':
                a = as_atom(x)
                if a is None:
                    raise Unsupported('discriminant of scalar')
                x = a
            if x.op in ('agg', 'cat', 'comp', 'unit', 'base', 'rv', 'ref'):
                raise Unsupported('discriminant of ' + x.op)
            r = const(-1 if name == ORD else 0)
            for i in range(1, nv):
                r = ite(mk_ite(mk('c_is', x, i), [FALSE, TRUE]), const(i - 1 if name == ORD else i), r)
            return r
        return lift_leaves(leaf, v)

    def binop(self, fr, st, op, a, b):
        ta = self.op_ty(fr, a)
        x = self.operand(fr, st, a)
        y = self.operand(fr, st, b)
        return self.bin(op, ta, x, y)

    def bin(self, op, ta, x, y):
        isf = ta is not None and self.is_float(ta)
        isb = ta is not None and self.is_bool(ta)
        if op.endswith('WithOverflow'):
            return agg('tuple', self.arith(op[:-12], isf, x, y), FALSE)
        if op.endswith('Unchecked'):
            op = op[:-9]
        if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'Shl', 'Shr'):
            return self.arith(op, isf, x, y)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if isb:
                if op == 'BitAnd':
                    return b_and(x, y)
                if op == 'BitOr':
                    return b_or(x, y)
                return ite(x, b_not(y), y)
            return fn(op, x, y)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            r = self.compare(op, isf, isb, x, y)
            return r
        if op == 'Offset':
            raise Unsupported('pointer arithmetic')
        raise Unsupported('binary ' + op)

    def compare(self, op, isf, isb, x, y):
        if op in ('Ne', 'Gt', 'Ge'):
            if op == 'Ne':
                return b_not(self.compare('Eq', isf, isb, x, y))
            return self.compare({'Gt': 'Lt', 'Ge': 'Le'}[op], isf, isb, y, x)
        if isb:
            if op == 'Eq':
                return ite(x, y, b_not(y))
            return b_and(b_not(x), y) if op == 'Lt' else b_or(b_not(x), y)
        if isf:
            return {'Eq': real_eq, 'Lt': real_lt, 'Le': real_le}[op](x, y)
        return {'Eq': int_eq, 'Lt': int_lt, 'Le': int_le}[op](x, y)

    def arith(self, op, isf, x, y):
        if op == 'Add':
            return add(x, y)
        if op == 'Sub':
            return sub(x, y)
        if op == 'Mul':
            return mul(x, y)
        if op == 'Div':
            return div(x, y) if isf else divmod_t(x, y)[0]
        if op == 'Rem':
            return fn('fmod', x, y) if isf else divmod_t(x, y)[1]
        c = cval(y)
        if c is not None and c == int(c):
            if op == 'Shl':
                return mul(x, const(2 ** int(c)))
            return divmod_t(x, const(2 ** int(c)))[0]
        return fn(op, x, y)

    # -- functions
    def run_body(self, fn, args, st):
        """inline a body: returns the value of _0; st is updated in place"""
        if len(self.stack) > self.max_depth:
            raise Unsupported('inlining depth')
        self.fid += 1
        fr = Frame(self.fid, fn)
        self.analysed.add(fn['path'])
        for i, a in enumerate(args):
            st[fr.root(i + 1)] = a
        # closures with untupled arguments are prepared by the caller
        cfg = self.cfgs.get(fn['key'])
        if cfg is None:
            cfg = self.cfgs[fn['key']] = CFG(fn)
        self.stack.append(fn['key'])
        try:
            outs = self.region(fr, cfg, set(cfg.rpo), 0, st, None)
        finally:
            self.stack.pop()
        rets = [(g, s) for tgt, g, s in outs if tgt == 'RET']
        if not rets:
            raise Diverges(fn['path'])
        g, s = self.merge(rets)
        pre = fr.prefix
        ret = s.get(fr.root(0), UNIT)
        st.clear()
        for k, v in s.items():
            if not k.startswith(pre):
                st[k] = v
        return ret

    def merge(self, items):
        """items: (guard, state) with disjoint guards"""
        items = [(g, s) for g, s in items if g is not FALSE]
        if len(items) == 1:
            return items[0]
        g = items[0][0]
        keys = set(items[0][1])
        for h, s in items[1:]:
            g = b_or(g, h)
            keys &= set(s)
        out = {}
        for k in keys:
            vs = [s[k] for _, s in items]
            if all(v is vs[0] for v in vs):
                out[k] = vs[0]
                continue
            r = BOT
            for (h, _), v in reversed(list(zip(items, vs))):
                r = self.gsel(h, v, r)
            out[k] = r
        return g, out

    def gsel(self, g, a, b):
        if a is b:
            return a
        return ite(g, a, b)

    def region(self, fr, cfg, blocks, entry, st, header):
        """process the acyclic region; returns [(target, guard, state)] of the edges leaving it"""
        pend = {entry: [(TRUE, st)]}
        outs = []
        rp = [b for b in cfg.rpo if b in blocks]
        skip = set()
        for b in rp:
            if b in skip or b not in pend:
                continue
            g, s = self.merge(pend.pop(b))
            if g is FALSE:
                continue
            if b in cfg.loops and b != header:
                body = cfg.loops[b]
                skip |= body
                edges = self.loop(fr, cfg, body, b, s)
            else:
                edges = self.block(fr, cfg, b, s)
            for tgt, h, s2 in edges:
                gg = b_and(g, h) if h is not TRUE else g
                if gg is FALSE or gg is BOT:
                    continue
                if tgt in blocks and tgt != header and tgt != 'RET':
                    if cfg.num[tgt] <= cfg.num[b] and tgt not in cfg.loops:
                        raise Unsupported('irreducible')
                    pend.setdefault(tgt, []).append((gg, s2))
                else:
                    outs.append((tgt, gg, s2))
        return outs

    def loop(self, fr, cfg, body, header, st):
        import loops

        def run(s):
            outs = self.region(fr, cfg, body, header, s, header)
            back = [(g, s2) for t, g, s2 in outs if t == header]
            exits = [(t, g, s2) for t, g, s2 in outs if t != header]
            return back, exits
        soft = self.unroll < 0
        if self.unroll or self.attempt:
            acc, out = TRUE, []
            st0 = st
            attempt = not self.unroll
            for _ in range(abs(self.unroll) or self.attempt):
                back, exits = run(st)
                for t, g, s2 in exits:
                    g = b_and(acc, g)
                    if g is not FALSE and g is not BOT:
                        out.append((t, g, s2))
                back = [(g, s2) for g, s2 in back if g is not FALSE and g is not BOT]
                if not back:
                    return out
                g, st = self.merge(back)
                acc = b_and(acc, g)
                if acc is FALSE or acc is BOT:
                    return out
                if soft and acc is not TRUE:
                    break
            if soft or attempt:
                # the number of rounds is not decided: summarise
                sp = cfg.blocks[header]['t'].get('sp')
                return loops.solve(self, run, st0, where=(fr.fn['path'], sp))
            raise Unsupported('loop of more than %d rounds' % self.unroll)
        sp = cfg.blocks[header]['t'].get('sp')
        return loops.solve(self, run, st, where=(fr.fn['path'], sp))

    def block(self, fr, cfg, b, st):
        st = dict(st)
        blk = cfg.blocks[b]
        for s in blk['s']:
            if s[0] == 'assign':
                v = self.rvalue(fr, st, s[2])
                self.assign(fr, st, s[1], v)
            elif s[0] == 'dead':
                st.pop(fr.root(s[1]), None)
            elif s[0] == 'setdiscr':
                raise Unsupported('set discriminant')
        t = blk['t']
        k = t['k']
        if k == 'goto' or k == 'falseedge' or k == 'falseunwind':
            return [(t['t'], TRUE, st)]
        if k == 'return':
            return [('RET', TRUE, st)]
        if k == 'switch':
            d = self.operand(fr, st, t['d'])
            out = self.switch(t, d, st)
            if len(out) > 1:
                self.splits += 1
                if self.max_splits is not None and self.splits > self.max_splits:
                    raise Unsupported('branches that the class does not decide')
            return out
        if k == 'assert':
            if self.asserts is not None:
                self.asserts.append((fr.fn['path'], t['kind'], t['sp']))
            if t['kind'] == 'bounds':
                n, i = [self.operand(fr, st, x) for x in t['ops']]
                if self.models.outside(i, n):
                    return []
            return [(t['t'], TRUE, st)]
        if k == 'drop':
            self.models.drop(self, st, fr, t)
            return [(t['t'], TRUE, st)]
        if k == 'call':
            if t.get('t') is None:
                return []
            try:
                v = self.call(fr, st, t)
            except Diverges:
                return []
            self.assign(fr, st, t['dest'], v)
            return [(t['t'], TRUE, st)]
        if k in ('unreachable', 'resume', 'terminate', 'abort'):
            return []
        raise Unsupported('terminator ' + k)

    def assign(self, fr, st, pl, v):
        if not pl['p']:
            st[fr.root(pl['l'])] = v
            return
        if fr.root(pl['l']) not in st:
            st[fr.root(pl['l'])] = UNINIT
        kind, x = self.resolve(fr, st, pl)
        if kind == 'val':
            raise Unsupported('write through shared reference')
        self.write(st, x, v)

    def switch(self, t, d, st):
        ty = self.ty(t['ty'])
        out = []
        if ty['k'] == 'prim' and ty['s'] == 'bool':
            vals = {int(v): b for v, b in t['v']}
            for v in (0, 1):
                tgt = vals.get(v, t['o'])
                if tgt is None:
                    continue
                g = d if v else b_not(d)
                if g is not FALSE and g is not BOT:
                    out.append((tgt, g))
        else:
            rest = TRUE
            w = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}.get(ty['s'])
            for v, b in t['v']:
                n = int(v)
                if w and n >> (w - 1):
                    n -= 1 << w
                g = int_eq(d, const(n))
                out.append((b, b_and(rest, g)))
                rest = b_and(rest, b_not(g))
            if t['o'] is not None:
                out.append((t['o'], rest))
        res = []
        # several values may share a target
        merged = {}
        for b, g in out:
            merged[b] = b_or(merged[b], g) if b in merged else g
        live = [(b, g) for b, g in merged.items() if g is not FALSE and g is not BOT]
        for b, g in live:
            s = st if len(live) == 1 else self.restrict_state(st, g)
            res.append((b, g, s))
        return res

    def restrict_state(self, st, g):
        cs = conds_of(g)
        out = dict(st)
        for k, v in st.items():
            if v.op in ('ite', 'agg', 'rv'):
                dc = deep_conds(v)
                if dc and (dc & cs or any(implied(c, b, d) is not None for c in cs for d in dc for b in range(arity(c)))):
                    out[k] = self.restrict_val(v, g)
        return out

    def restrict_val(self, v, g):
        if v.op in ('agg', 'rv'):
            return mk(v.op, *[self.restrict_val(x, g) if isinstance(x, T) else x for x in v.args])
        if v.op == 'ite':
            r = ite(g, v, BOT)
            return v if r is BOT else r
        return v

    # -- calls
    def call(self, fr, st, t):
        self.sites += 1
        args = [self.operand(fr, st, a) for a in t['args']]
        f = t['f']
        if 'const' in f and 'fn' in f['const']:
            fnref = f['const']['fn']
            dty = self.place_ty(fr, t['dest'])
            atys = [self.op_ty(fr, a) for a in t['args']]
            return self.call_ref(fnref, args, st, dty, atys, t.get('sp'))
        v = self.operand(fr, st, f)
        return self.apply(v, args, st)

    def apply(self, f, args, st):
        """call a callable value with positional arguments"""
        if f is BOT:
            return BOT
        if f.op == 'ite':
            raise Unsupported('call of conditional function value')
        tgt = f
        while tgt.op in ('rv', 'ref'):
            fref = tgt
            tgt = tgt.args[0] if tgt.op == 'rv' else self.read(st, tgt)
        if tgt.op == 'fnitem':
            fnref = self.models.FNREFS[tgt.args[0]]
            return self.call_ref(fnref, list(args), st, None, [None] * len(args), None)
        if tgt.op == 'agg' and str(tgt.args[0]).startswith('closure:'):
            key = tgt.args[0][8:]
            fn = self.p.fns.get(key)
            if fn is None:
                raise Unsupported('closure body ' + key)
            selfty = self.ty(fn['locals'][1]['ty'])
            tmp = None
            if selfty['k'] == 'ref':
                if selfty['m']:
                    if f.op == 'ref':
                        a0 = f
                    else:
                        self.fid += 1
                        tmp = 'tmp%d' % self.fid
                        st[tmp] = tgt
                        a0 = mk('ref', tmp, ())
                else:
                    a0 = mk('rv', tgt)
            else:
                a0 = tgt
            r = self.run_body(fn, [a0] + list(args), st)
            if tmp:
                st.pop(tmp, None)
            return r
        # opaque callable
        return self.opaque_call('call', [f] + list(args), None, st)

    def local_fn(self, fnref):
        r = fnref.get('res')
        if r and r.get('k') == 'virtual':
            return None
        if r and r.get('local') and r.get('key') in self.p.fns:
            return self.p.fns[r['key']]
        if not fnref.get('trait') and fnref.get('local') and fnref.get('key') in self.p.fns:
            return self.p.fns[fnref['key']]
        return None

    def call_ref(self, fnref, args, st, dty, atys, sp):
        path = norm_path(fnref['path'])
        # a closure called by name passes its arguments as one tuple: the model spreads it
        fn = None if path in FN_CALLS else self.local_fn(fnref)
        h = self.hooks.get(path)
        if h is None and fn is not None:
            h = self.hooks.get(fn['np'])
        if h is not None:
            return h(self, args, st, dty)
        if fn is not None:
            if self.ext_hook is not None and fnref['name'] in ('downcast_ref', 'downcast_mut', 'is') and "(dyn " in path:
                r = self.ext_hook(self, fnref, path, args, st, dty)
                if r is not None:
                    return r
            if fn['np'] in self.opaque or path in self.opaque:
                return self.opaque_call(path if path in self.opaque else fn['np'], args, dty, st)
            if fn['key'] in self.stack:
                return self.opaque_call('rec:' + fn['np'], args, dty, st)
            return self.run_body(fn, args, st)
        if path in self.opaque:
            return self.opaque_call(path, args, dty, st)
        if self.ext_hook is not None:
            r = self.ext_hook(self, fnref, path, args, st, dty)
            if r is not None:
                return r
        r = self.models.call(self, fnref, path, args, st, dty, atys)
        if r is not None:
            return r
        # trait method on a generic / dynamic receiver
        if fnref.get('trait') and fnref.get('local'):
            if self.dyn_hook:
                r = self.dyn_hook(self, fnref, args, st, dty)
                if r is not None:
                    return r
            return self.opaque_call(path, args, dty, st)
        if path.split('::')[0].lstrip('<').startswith('iso_10303'):
            return self.opaque_call(path + self.models.gen_args(self, fnref), args, dty, st)
        self.unmod.append((path, sp))
        return self.opaque_call('?' + path, args, dty, st)

    def snap(self, st, v):
        """argument value with references stripped (deeply for ref terms)"""
        v = self.deref(st, v)
        if v.op == 'agg':
            return mk('agg', v.args[0], *[self.snap(st, x) if isinstance(x, T) else x for x in v.args[1:]])
        return v

    def opaque_call(self, name, args, dty, st):
        snaps = [self.snap(st, a) for a in args]
        t = mk('app', name, *snaps)
        # arguments with conditions: distribute so that equal calls stay equal
        for i, a in enumerate(args):
            if a.op == 'ref':
                old = self.read(st, a)
                self.write(st, a, self.havoc_like(old, mk('app', name + '#out%d' % i, *snaps)))
        return self.app_value(t, dty)

    def app_value(self, t, dty):
        best = None
        for a in t.args[1:]:
            for c in deep_conds(a) if isinstance(a, T) else ():
                if best is None or ckey(c) < ckey(best):
                    best = c
        if best is not None:
            kids = []
            for b in range(arity(best)):
                kids.append(self.app_value(mk('app', t.args[0], *[deep_cof(a, best, b) for a in t.args[1:]]), dty))
            return mk_ite(best, kids)
        if dty is None:
            return t
        return self.havoc(dty, t)

    def havoc_like(self, v, t):
        return elem_like(shape(v), t)


UNINIT = mk('uninit')
BOXLIKE = {'std::boxed::Box', 'std::boxed::BoxRaw', 'std::ptr::Unique', 'std::ptr::NonNull'}


class Frame:
    __slots__ = ('id', 'fn', 'prefix', 'roots')

    def __init__(self, id_, fn):
        self.id = id_
        self.fn = fn
        self.prefix = 'f%d.' % id_
        self.roots = {}

    def root(self, l):
        r = self.roots.get(l)
        if r is None:
            r = self.roots[l] = 'f%d.%d' % (self.id, l)
        return r
