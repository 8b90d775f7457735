"""Closed-form summaries of loops over value graphs.

`solve(interp, run, st, where)`: `run(state)` analyses the body once from the loop
header and returns (back, exits).  The carried leaves of the state are replaced by
marker atoms (mu), the body is analysed, and recurrences are solved leaf by leaf
(accumulation, append, element sweep, last value, running minimum, any/all);
whatever remains becomes a canonical `fold` term over the whole group.
"""
from term import *
import term as T_

_muc = [0]


class Unsolved(Exception):
    pass


def newmu(kind):
    _muc[0] += 1
    return mk('mu', _muc[0], kind)


# ------------------------------------------------------------------ val hook
def _val(x):
    if x.op in ('true', 'false', 'bot'):
        return x
    if x.op == 'ite':
        return mk_ite(x.args[0], [_val(k) for k in x.args[1:]])
    if x.op == 'rat':
        a = as_atom(x)
        if a is not None:
            x = a
    return b_atom('val', x)


b_hooks['val'] = lambda tag, x: _val(x)


# ------------------------------------------------------------- carried leaves
class Leaf:
    __slots__ = ('root', 'path', 'mu', 'x0', 'kind', 'tmpl', 'sol', 'F')

    def __repr__(self):
        return 'Leaf(%s,%s,%s)' % (self.root, self.path, self.kind)


def at_path(v, path):
    for p in path:
        if v is BOT:
            return BOT
        if v.op == 'ite':
            v = mk_ite(v.args[0], [at_path(k, (p,)) for k in v.args[1:]])
            continue
        if p == 'rv':
            if v.op != 'rv':
                raise T_unsupported('carried reference changes form')
            v = v.args[0]
        else:
            if v.op != 'agg' or len(v.args) <= 1 + p:
                raise T_unsupported('carried aggregate changes form')
            v = v.args[1 + p]
    return v


def T_unsupported(m):
    from interp import Unsupported
    return Unsupported(m)


def put_path(v, path, x):
    if not path:
        return x
    p = path[0]
    if p == 'rv':
        return mk('rv', put_path(v.args[0], path[1:], x))
    a = list(v.args)
    a[1 + p] = put_path(a[1 + p], path[1:], x)
    return mk('agg', *a)


def kind_of(old, new):
    for v in (old, new):
        if v is BOT or v.op == 'uninit':
            continue
        if is_seq(v):
            return 'seq'
    for v in (old, new):
        ls = leaves(v)
        for x in ls:
            if x.op in ('true', 'false'):
                return 'bool'
            if x.op == 'rat':
                return 'num'
            if x.op == 'agg':
                return 'agg'
            if x.op == 'ref':
                return 'ref'
    return 'opq'


def leaves(v):
    out = []
    seen = set()

    def w(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'ite':
            for k in x.args[1:]:
                w(k)
        elif x is not BOT:
            out.append(x)
    w(v)
    return out


def best_shape(*vs):
    for v in vs:
        if v is BOT or v.op == 'uninit':
            continue
        s = elem_sample(v)
        if s is not NOSHAPE and not (s.op == 'shape' and s.args[0] == '?'):
            return s
    return NOSHAPE


def mark(root, path, old, new, cur, out):
    """compare template `cur` with the next value; mark changed leaves. `old` is the entry value"""
    if cur is new:
        return cur
    if cur.op == 'agg' and new.op == 'agg' and cur.args[0] == new.args[0] and len(cur.args) == len(new.args):
        a = [cur.args[0]]
        for i in range(1, len(cur.args)):
            x, y = cur.args[i], new.args[i]
            o = at_path(old, (i - 1,)) if old.op in ('agg', 'ite') else old
            a.append(mark(root, path + (i - 1,), o, y, x, out) if isinstance(x, T) else x)
        return mk('agg', *a)
    if cur.op == 'rv' and new.op == 'rv':
        return mk('rv', mark(root, path + ('rv',), at_path(old, ('rv',)), new.args[0], cur.args[0], out))
    k = kind_of(cur, new)
    lf = Leaf()
    lf.root, lf.path, lf.x0, lf.kind, lf.sol, lf.F = root, path, old, k, None, None
    if k == 'ref':
        raise T_unsupported('loop carries a changing reference')
    if k == 'seq':
        lf.mu = newmu('x')
        lf.tmpl = base(lf.mu, best_shape(old, new))
    elif k == 'num':
        lf.mu = newmu('r')
        lf.tmpl = atom(lf.mu)
        if _nn(old) and _nn(new, 1):
            pass
    elif k == 'bool':
        lf.mu = newmu('x')
        lf.tmpl = b_atom('val', lf.mu)
    elif k == 'agg':
        lf.mu = newmu('x')
        lf.tmpl = elem_like(shape(new if new.op == 'agg' or cur.op == 'uninit' else cur), lf.mu)
    else:
        lf.mu = newmu('x')
        lf.tmpl = lf.mu
    out.append(lf)
    return lf.tmpl


def _nn(*a):
    return False


# ------------------------------------------------------------------- the solver
def combine(back):
    """merged next state and continuation guard"""
    from interp import UNINIT
    g = FALSE
    for h, _ in back:
        g = b_or(g, h)
    keys = set(back[0][1])
    for _, s in back[1:]:
        keys &= set(s)
    return g, keys


def nxt(back, root):
    r = BOT
    for h, s in reversed(back):
        v = s[root]
        r = v if r is v else ite(h, v, r)
    if len(back) == 1:
        g = back[0][0]
        r = back[0][1][root]
        if r.op in ('ite', 'agg', 'rv') and g is not TRUE:
            r2 = cofg(r, g)
            if r2 is not BOT:
                r = r2
    return r


def cofg(v, g):
    """v where only its values under g matter"""
    if v.op in ('agg', 'rv'):
        if not deep_conds(v):
            return v
        return mk(v.op, *[cofg(x, g) if isinstance(x, T) else x for x in v.args])
    if v.op == 'ite':
        return gcof(v, g)
    return v


def gcof(v, g):
    """generalised cofactor: ite(g, v, don't care) without introducing g's conditions"""
    if v.op != 'ite' or g is TRUE:
        return v
    r = ite(g, v, BOT)
    # drop conditions of g that do not matter: accept r only when not larger
    if r is BOT:
        return v
    if not (conds_of(r) <= conds_of(v)):
        # remove forced conditions only
        for c in sorted(conds_of(g), key=ckey):
            live = [b for b in range(arity(c)) if cof(g, c, b) is not FALSE]
            if len(live) == 1:
                v = cof(v, c, live[0])
        return v
    return r


def solve(interp, run, st, where=None):
    from interp import Unsupported
    import interp as I_
    fid0 = None
    cur = dict(st)
    lvs = []
    # ---- discover the carried leaves
    for rnd in range(60):
        back, exits = run(cur)
        back = [(g, s) for g, s in back if g is not FALSE and g is not BOT]
        if not back:
            if not lvs:
                return [(t, g, s) for t, g, s in exits]
            break
        cont, keys = combine(back)
        new = []
        changed = False
        for r in sorted(st):
            if r not in keys:
                continue
            v = nxt(back, r)
            mine = [l for l in lvs if l.root == r]
            t2 = remark(r, st[r], v, cur[r], mine, new)
            if t2 is not cur[r]:
                cur[r] = t2
                changed = True
        lvs = [l for l in lvs if not any(n.root == l.root and n.path == l.path[:len(n.path)] for n in new)] + new
        if not changed:
            break
    else:
        raise Unsupported('loop does not stabilise')
    k_atom = fresh('n', ZERO)
    K = atom(k_atom)
    info = {'where': where, 'leaves': lvs, 'k': k_atom, 'folds': 0}
    # the solutions are functions of the round number `ks`; it reaches the trip count itself,
    # which the round number `k_atom` inside the body does not
    ks = k_atom
    unsolved = list(lvs)
    N = None
    bounded = False

    def state_at(m=None):
        state = dict(st)
        for r in st:
            state[r] = cur[r]
        for l in lvs:
            if l.sol is not None:
                state[l.root] = put_path(state[l.root], l.path, subst(l.sol, m) if m else l.sol)
        return state

    def go():
        back, exits = run(state_at({ks: K} if ks is not k_atom else None))
        return [(g, s) for g, s in back if g is not FALSE and g is not BOT], exits
    while True:
        back, exits = go()
        if not back:
            # the body never repeats
            return [(t, g, s) for t, g, s in run(dict(st))[1]]
        cont, keys = combine(back)
        N1 = None
        if not bounded:
            N1 = trip(cont, k_atom, K, {l.mu for l in unsolved}, partial=True)
            if N1 is not None and N1.op == 'rat' and N1 is not ZERO:
                bounded = True
                k_old = k_atom
                k_atom = fresh('n', ZERO, sub(N1, ONE))
                K = atom(k_atom)
                ks = fresh('n', ZERO, N1)
                for l in lvs:
                    if l.sol is not None:
                        l.sol = subst(l.sol, {k_old: atom(ks)})
                continue
        for l in unsolved:
            l.F = at_path(nxt(back, l.root), l.path)
        if not unsolved:
            break
        info['F'] = {(l.root, l.path): l.F for l in unsolved}
        if ks is not k_atom:
            for l in unsolved:
                l.F = subst(l.F, {k_atom: atom(ks)})
        prog = solve_round(unsolved, ks, atom(ks))
        if not prog:
            fold_rest(unsolved, ks, atom(ks))
            info['folds'] += len(unsolved)
        unsolved = [l for l in unsolved if l.sol is None]
    info['back'] = back
    info['k'] = k_atom
    # ---- trip count and exits
    if bounded:
        # the header is also reached once more, with k = N
        k1 = fresh('n', ZERO)
        for l in lvs:
            l.sol = subst(l.sol, {ks: atom(k1)})
        k_atom, K = k1, atom(k1)
        ks = k1
        back, exits = go()
        if not back:
            return [(t, g, s) for t, g, s in run(dict(st))[1]]
        cont, keys = combine(back)
    N = trip(cont, k_atom, K, set())
    info['N'] = N
    info['cont'] = cont
    info['exits'] = [(t, g) for t, g, _ in exits]
    interp.loopinfo.append(info)
    if N.op == 'rat':
        b2, exits = run(state_at({k_atom: N}))
        c2 = FALSE
        for g, _ in b2:
            c2 = b_or(c2, g) if g is not BOT else c2
        cont = c2
        if cont is TRUE:
            raise Unsupported('loop exit not found')
    ncont = b_not(cont)
    out = []
    if N.op == 'ite' :
        pass
    m = {k_atom: N}
    live = [(t, g, s) for t, g, s in exits if g is not FALSE and g is not BOT]
    for t, g, s in live:
        if len(live) == 1:
            G = TRUE
        else:
            G = ite(ncont, g, BOT)
            G = subst(G, m)
            # exit guards at the final iteration
            if G is FALSE or G is BOT:
                continue
        s2 = {}
        for r, v in s.items():
            if k_atom in v.fv or v.op == 'ite' or v.op in ('agg', 'rv'):
                vv = restrict_deep(v, g) if g is not TRUE else v
                s2[r] = subst(vv, m) if k_atom in vv.fv else vv
            else:
                s2[r] = v
        out.append((t, G, s2))
    if len(live) > 1 and len(out) == 1:
        out = [(out[0][0], TRUE, out[0][2])]
    return out


def restrict_deep(v, g):
    if v.op in ('agg', 'rv'):
        if not deep_conds(v):
            return v
        return mk(v.op, *[restrict_deep(x, g) if isinstance(x, T) else x for x in v.args])
    if v.op == 'ite':
        return gcof(v, g)
    return v


def remark(root, old, new, cur, mine, out):
    """like mark, but skips leaves that are already marked"""
    marked = {l.path: l for l in mine}

    def go(path, o, n, c):
        l = marked.get(path)
        if l is not None:
            # refine the template when its shape was unknown
            if l.kind == 'seq':
                s = best_shape(l.tmpl, l.x0, n)
                if s is not NOSHAPE and l.tmpl.op == 'base' and l.tmpl.args[1] is not s and l.tmpl.args[1] is NOSHAPE:
                    l.tmpl = base(l.mu, s)
                    return l.tmpl
            k = kind_of(c, n)
            if k != l.kind and l.kind == 'opq' and n is not BOT and n.op != 'uninit':
                pass
            return c
        if c is n or n is BOT:
            return c
        if c.op == 'agg' and n.op == 'agg' and c.args[0] == n.args[0] and len(c.args) == len(n.args):
            a = [c.args[0]]
            for i in range(1, len(c.args)):
                x, y = c.args[i], n.args[i]
                if isinstance(x, T):
                    a.append(go(path + (i - 1,), at_path(o, (i - 1,)), y, x))
                else:
                    a.append(x)
            return mk('agg', *a)
        if c.op == 'rv' and n.op == 'rv':
            return mk('rv', go(path + ('rv',), at_path(o, ('rv',)), n.args[0], c.args[0]))
        return mark(root, path, o, n, c, out)
    return go((), old, new, cur)


def linear_in(p, a):
    """(coef, rest) with p = coef*a + rest and a not in coef/rest, or None"""
    co, rest = [], []
    for m, c in p:
        es = dict(m)
        if a in es:
            if es[a] != 1:
                return None
            co.append((tuple(x for x in m if x[0] is not a), c))
        else:
            rest.append((m, c))
        for x, _ in m:
            if x is not a and a in x.fv:
                return None
    return pnorm(dict(co)), pnorm(dict(rest))


def bound_of(c, k):
    """for condition c_pos(t): ('up', A) when true iff k < A, or ('down', A) when false iff k < A"""
    if c.op != 'c_pos' or c.args[0].args[1]:
        return None
    r = linear_in(c.args[0].args[0], k)
    if r is None:
        return None
    co, rest = r
    if not co or not pis_const(co):
        return None
    a = pconst_val(co)
    R = T_._mk_rat(rest, {})
    if a < 0:
        # R - |a| k > 0  <=> k < ceil(R/|a|)
        m = -a
        if m == 1:
            return 'up', R
        return 'up', divmod_t(add(R, const(m - 1)), const(m))[0]
    # a k + R > 0 false  <=>  a k <= -R  <=> k < floor(-R/a)+1
    if a == 1:
        return 'down', sub(ONE, R)
    return 'down', add(divmod_t(neg(R), const(a))[0], ONE)


def trip(cont, k, K, unsolved, partial=False):
    """number of iterations: least k with not cont(k)"""
    if not partial:
        if cont is TRUE:
            raise T_unsupported('loop without exit')
        return first_v2(INF, k, b_not(cont))
    if cont.op == 'ite':
        for c in sorted(conds_of(cont), key=ckey):
            if k not in c.fv and not (c.fv & unsolved):
                ts = [trip(cof(cont, c, b), k, K, unsolved, True) for b in range(arity(c))]
                if all(t is None for t in ts):
                    return None
                return None if any(t is None for t in ts) else mk_ite(c, ts)
    if cont is FALSE:
        return ZERO
    A = None
    g = cont
    for _ in range(6):
        hit = False
        for c in sorted(conds_of(g), key=ckey):
            if k not in c.fv or (c.fv & unsolved):
                continue
            b = bound_of(c, k)
            if b is not None:
                br = 0 if b[0] == 'up' else 1
                if cof(g, c, br) is FALSE:
                    bd = max0(b[1])
                    A = bd if A is None else tmin(A, bd)
                    g = cof(g, c, 1 - br)
                    hit = True
                    break
            if c.op == 'c_eq' and not c.args[0].args[1]:
                # k != A
                r = linear_in(c.args[0].args[0], k)
                if r and r[0] and pis_const(r[0]) and abs(pconst_val(r[0])) == 1 and cof(g, c, 1) is FALSE:
                    bd = T_._mk_rat(pscale(r[1], -1 / pconst_val(r[0])), {})
                    if T_._le(ZERO, bd):
                        A = bd if A is None else tmin(A, bd)
                        g = cof(g, c, 0)
                        hit = True
                        break
        if not hit:
            break
    return A


def first_v2(n, k, nb):
    v = fresh('n', ZERO, sub(n, ONE) if n.op == 'rat' and n is not INF else None)
    return first_v(n, v, subst(nb, {k: atom(v)}))


def at_prev(F, k_atom, K):
    """F(k-1)"""
    return subst(F, {k_atom: sub(K, ONE)})


def body_at(F, k_atom, K):
    """fresh j in [0,k) and F(j)"""
    v = fresh('n', ZERO, sub(K, ONE))
    return v, subst(F, {k_atom: atom(v)})


def mus_in(F, ms):
    return F.fv & ms


def solve_round(unsolved, k_atom, K):
    prog = False
    ms = frozenset(l.mu for l in unsolved)
    for l in unsolved:
        F = l.F
        if F is BOT:
            continue
        if not (F.fv & ms):
            P = at_prev(F, k_atom, K)
            z = None
            try:
                z = subst(F, {k_atom: const(-1)})
            except Exception:
                z = None
            if z is l.x0:
                l.sol = P
            else:
                l.sol = ite(int_pos(K), P, l.x0)
            prog = True
            continue
        if l.kind == 'num':
            try:
                D = sub(F, atom(l.mu))
            except NotScalar:
                continue
            if not (D.fv & ms):
                v, b = body_at(D, k_atom, K)
                l.sol = add(l.x0, sum_v(K, v, b))
                prog = True
                continue
        if l.kind == 'seq':
            s = solve_seq(l, F, ms, k_atom, K)
            if s is not None:
                l.sol = s
                prog = True
                continue
        if l.kind == 'bool':
            c = l.tmpl.args[0]
            t1, t0 = cof(F, c, 1), cof(F, c, 0)
            if t1 is TRUE and not (t0.fv & ms):
                v, b = body_at(t0, k_atom, K)
                l.sol = b_or(l.x0, int_lt(first_v(K, v, b), K))
                prog = True
                continue
            if t0 is FALSE and not (t1.fv & ms):
                v, b = body_at(b_not(t1), k_atom, K)
                l.sol = b_and(l.x0, b_not(int_lt(first_v(K, v, b), K)))
                prog = True
                continue
    if prog:
        return True
    # in-place sweeps: reads of positions not yet written see the entry value
    for l in unsolved:
        if l.kind == 'seq' and sweep(l, unsolved, ms, k_atom, K):
            return True
    for l in unsolved:
        if l.kind == 'num' and argext(l, unsolved, ms, k_atom, K):
            return True
    return False


def strip_mu(s, mu):
    """decompose next value: ('app', rest) for mu ++ rest, ('pre', rest) for rest ++ mu, or None"""
    if s.op == 'base' and s.args[0] is mu:
        return 'app', NIL
    if s.op == 'cat':
        idx = [i for i, p in enumerate(s.args) if p.op == 'base' and p.args[0] is mu]
        if idx == [0]:
            return 'app', cat(*s.args[1:])
        if len(idx) == 1 and idx[0] == len(s.args) - 1:
            return 'pre', cat(*s.args[:-1])
    return None


def solve_seq(l, F, ms, k_atom, K):
    kinds = set()
    bad = []

    def f(x):
        r = strip_mu(x, l.mu)
        if r is None:
            bad.append(x)
            return BOT
        if r[1] is not NIL:
            kinds.add(r[0])
        return r[1]
    R = lift_leaves(f, F)
    if bad or len(kinds) > 1 or (R.fv & ms):
        return None
    if kinds == {'pre'}:
        v = fresh('n', ZERO, sub(K, ONE))
        b = subst(R, {k_atom: sub(sub(K, ONE), atom(v))})
        return cat(flat_v(K, v, b), l.x0)
    v, b = body_at(R, k_atom, K)
    return cat(l.x0, flat_v(K, v, b))


def upd_chain(s, mu):
    out = []
    while s.op == 'upd':
        out.append((s.args[1], s.args[2]))
        s = s.args[0]
    if s.op == 'base' and s.args[0] is mu:
        return list(reversed(out))
    return None


def collect_idx(t, mu, out, seen, inlam):
    """idx(mu, e) subterms; returns False when mu occurs otherwise"""
    if mu not in t.fv:
        return True
    if t in seen:
        return True
    seen.add(t)
    if t.op == 'idx' and t.args[0] is mu:
        if not collect_idx(t.args[1], mu, out, seen, inlam):
            return False
        if inlam and T_bv(t.args[1]):
            return False
        out.add(t)
        return True
    if t is mu:
        return False
    ok = True
    ch = []
    for a in t.args:
        T_._child(a, ch)
    if t.op == 'len' and t.args[0] is mu:
        out.add(t)
        return True
    for c in ch:
        ok = collect_idx(c, mu, out, seen, inlam or t.op == 'lam') and ok
    return ok


def T_bv(t):
    if t.op == 'bv':
        return True
    ch = []
    for a in t.args:
        T_._child(a, ch)
    return any(T_bv(c) for c in ch)


def sweep(l, unsolved, ms, k_atom, K):
    """single-index in-place update: mu[i(k)] := v(k)"""
    chains = []
    bad = []

    def f(x):
        c = upd_chain(x, l.mu)
        if c is None or len(c) > 1:
            bad.append(x)
            return ZERO
        chains.append((x, c))
        return ZERO
    lift_leaves(f, l.F)
    if bad:
        return False
    idxs = {c[0][0] for _, c in chains if c}
    if len(idxs) != 1:
        return False
    I = idxs.pop()
    if I.fv & ms or I.op != 'rat' or I.args[1]:
        return False
    r = linear_in(I.args[0], k_atom)
    if r is None or not pis_const(r[0]) or not r[0] or abs(pconst_val(r[0])) != 1:
        return False
    c = pconst_val(r[0])
    a = T_._mk_rat(r[1], {})
    # value written at iteration k (old element where the guard does not write)
    old = get(l.tmpl, I)
    V = lift_leaves(lambda x: (upd_chain(x, l.mu) or [(None, old)])[0][1], l.F)
    # resolve reads
    reads = set()
    todo = [V] + [u.F for u in unsolved if u is not l]
    for t in todo:
        if l.mu in t.fv and not collect_idx(t, l.mu, reads, set(), False):
            return False
    x0 = l.x0
    m = {}
    for t in reads:
        if t.op == 'len':
            m[t] = length(x0)
            continue
        e = t.args[1]
        if e.op != 'rat' or (e.fv & ms):
            return False
        # not written by an earlier iteration: (e-a)/c >= k or < 0
        j = sub(e, a) if c == 1 else sub(a, e)
        if not (T_._le(K, j) or T_._le(add(j, ONE), ZERO)):
            return False
        v = get(x0, e)
        m[t] = v if v.op != 'rat' or as_atom(v) is None else as_atom(v)
    # a read replaced inside atoms: bases keep working because elem_like composes proj/idx
    try:
        sub_all = (lambda t: subst(t, m)) if m else (lambda t: t)
        V2 = sub_all(V)
        newF = {u: sub_all(u.F) for u in unsolved if u is not l}
    except NotScalar:
        return False
    if not (V2.fv & ms):
        v = fresh('n', ZERO, sub(K, ONE))
        Vj = subst(V2, {k_atom: atom(v)})
        n0 = length(x0)
        if c == 1:
            lo, cnt = a, K
            mid = comp_v(K, v, Vj)
        else:
            lo, cnt = sub(a, sub(K, ONE)), K
            v2 = fresh('n', ZERO, sub(K, ONE))
            mid = comp_v(K, v2, subst(V2, {k_atom: sub(sub(K, ONE), atom(v2))}))
        l.sol = cat(T_.sub_(x0, ZERO, lo), mid, T_.sub_(x0, add(lo, cnt), sub(n0, add(lo, cnt))))
        return True
    # solve the other leaves with the resolved reads
    keep = {u: u.F for u in unsolved}
    lF = l.F
    for u, F in newF.items():
        u.F = F
    others = [u for u in unsolved if u is not l]
    if solve_round_simple(others, ms - {l.mu}, k_atom, K):
        return True
    for u, F in keep.items():
        u.F = F
    return False


def solve_round_simple(unsolved, ms, k_atom, K):
    prog = False
    for l in unsolved:
        F = l.F
        if F is BOT or l.kind == 'seq':
            continue
        if not (F.fv & ms):
            P = at_prev(F, k_atom, K)
            l.sol = ite(int_pos(K), P, l.x0)
            prog = True
        elif l.kind == 'num':
            D = sub(F, atom(l.mu))
            if not (D.fv & ms):
                v, b = body_at(D, k_atom, K)
                l.sol = add(l.x0, sum_v(K, v, b))
                prog = True
    return prog


# --------------------------------------------------------- running extrema
FM = atom(mk('sym', 'fmax'))


def argext(l, unsolved, ms, k_atom, K):
    """min/max tracking: leaves updated together when d(k) beats the carried best"""
    mu = l.mu
    C = lift_leaves(lambda x: FALSE if x.op == 'rat' and as_atom(x) is mu else TRUE, l.F)
    cs = [c for c in conds_of(C) if c.fv & ms]
    if len(cs) != 1 or cs[0].op != 'c_sgn':
        return False
    c = cs[0]
    if (c.fv & ms) != {mu}:
        return False
    n = c.args[0]
    if n.args[1]:
        return False
    r = linear_in(n.args[0], mu)
    if r is None:
        return False
    al, be = T_._mk_rat(r[0], {}), T_._mk_rat(r[1], {})
    sg = rsign_const(al)
    if sg is None:
        return False
    d = div(neg(be), al)
    if d.fv & ms:
        return False
    # branch index where d < mu
    less, more = (2, 0) if sg > 0 else (0, 2)
    G = {i: cof(C, c, i) for i in range(3)}
    if G[more] is FALSE and G[less] is not FALSE:
        mode, hit = 'min', G[less]
    elif G[less] is FALSE and G[more] is not FALSE:
        mode, hit = 'max', G[more]
    else:
        return False
    if G[1] is FALSE:
        strict = 1
    elif G[1] is hit:
        strict = 0
    else:
        # a zero branch collapsed by continuity: the value is the same
        strict = 1
    if hit.fv & ms:
        return False
    group = []
    for u in unsolved:
        hi_ = less if mode == 'min' else more
        new = cof(u.F, c, hi_) if u.F.op == 'ite' else u.F
        new = gcof(new, hit) if hit is not TRUE else new
        oth = cof(u.F, c, more if mode == 'min' else less) if u.F.op == 'ite' else u.F
        if mu in u.F.fv or any(x in u.F.fv for x in ms if x is u.mu):
            if oth is u.tmpl and not (new.fv & ms):
                group.append((u, new))
    if not any(u is l for u, _ in group):
        return False
    newl = [x for u, x in group if u is l][0]
    if newl is not d:
        return False
    # the extremum itself does not show which of equal candidates is kept
    strict = 1
    for u, x in group:
        if u is not l and cof(u.F, c, 1) is not u.tmpl:
            strict = 0
    v, dj = body_at(d if mode == 'min' else neg(d), k_atom, K)
    Gj = subst(hit, {k_atom: atom(v)})
    x0 = l.x0 if mode == 'min' else neg(l.x0)
    inf0 = x0 is FM
    # initial best is element -1 of the same family?
    ext = False
    if not inf0 and hit is TRUE:
        try:
            if all(subst(x, {k_atom: const(-1)}) is u.x0 for u, x in group):
                ext = True
        except NotScalar:
            pass
    if ext:
        n2 = add(K, ONE)
        w = fresh('n', ZERO, K)
        dw = subst(d if mode == 'min' else neg(d), {k_atom: sub(atom(w), ONE)})
        A = arg_atom(n2, w, dw, TRUE, strict)
        for u, x in group:
            u.sol = subst(x, {k_atom: sub(A, ONE)})
        return True
    A = arg_atom(K, v, dj, Gj, strict)
    exists = int_pos(K) if Gj is TRUE else int_lt(first_v(K, v, Gj), K)
    better = TRUE
    if not inf0:
        dA = subst(d if mode == 'min' else neg(d), {k_atom: A})
        better = real_lt(dA, x0) if strict else real_le(dA, x0)
    for u, x in group:
        u.sol = ite(b_and(exists, better), subst(x, {k_atom: A}), u.x0)
    return True


def rsign_const(t):
    c = cval(t)
    if c is not None:
        return 1 if c > 0 else -1 if c < 0 else None
    r = psign(t.args[0]) if t.op == 'rat' and not t.args[1] else None
    return r if r in (1, -1) else None


def arg_atom(n, v, d, G, strict):
    """index of the first (strict) / last minimum of d over [0,n) where G"""
    l = lam([v], agg('tuple', d, ite(G, ONE, ZERO)))
    a = mk('argmin', n, l, strict)
    facts.nonneg.add(a)
    if n.op == 'rat':
        facts.hi.setdefault(a, sub(n, ONE))
    return atom(a)


def _argmin_b(n, l, strict):
    if n.op == 'ite':
        return mk_ite(n.args[0], [BOT if k is BOT else _argmin_b(k, l, strict) for k in n.args[1:]])
    if n is ONE:
        return ZERO
    v = fresh('n', ZERO, sub(n, ONE))
    b = inst(l, atom(v))
    return arg_atom(n, v, b.args[1], int_pos(b.args[2]), strict)


builders['argmin'] = _argmin_b


# ------------------------------------------------------------------------ folds
KEPT = set()        # (step, component) of folds whose length stays that of the initial value


def kept_len(t):
    if t.op == 'fold' and (t.args[2], t.args[3]) in KEPT:
        return length(t.args[1].args[1 + t.args[3]])
    return None


len_hooks.append(kept_len)


def fold_rest(unsolved, k_atom, K):
    """canonical fold terms for groups of mutually dependent leaves"""
    # solve minimal groups first
    by = {l.mu: l for l in unsolved}
    deps = {}
    for l in unsolved:
        ds = {l}
        todo = [l]
        while todo:
            x = todo.pop()
            for m in (x.F.fv if x.F is not BOT else ()):
                y = by.get(m)
                if y is not None and y not in ds:
                    ds.add(y)
                    todo.append(y)
        deps[l] = ds
    l = min(unsolved, key=lambda x: (len(deps[x]), x.root, str(x.path)))
    grp = list(deps[l])
    # canonical order
    # (names of free variables are arbitrary: they must not decide the order)
    anon = {a: atom(mk('sym', 'colfv')) for x in grp for t in (x.x0, x.F) if t is not BOT for a in t.fv if a.op == 'fv'}
    x0h = {x: subst(x.x0, anon).h for x in grp}
    col = dict(x0h)
    for _ in range(3):
        m = dict(anon)
        m.update( {x.mu: (atom(mk('sym', 'col%d' % col[x])) if x.kind == 'num' else mk('sym', 'col%d' % col[x])) for x in grp})
        m[k_atom] = atom(mk('sym', 'colk'))
        col = {x: subst(x.F, m).h ^ (x0h[x] * 3) for x in grp}
    grp.sort(key=lambda x: (col[x], x.root, str(x.path)))
    # sequences whose length the body preserves
    keep = {}
    for x in grp:
        if x.kind == 'seq':
            try:
                n = length(x.x0)
                if n.op == 'rat' and k_atom not in n.fv:
                    keep[x] = n
            except NotScalar:
                pass
    FF = {x: x.F for x in grp}
    while keep:
        m = {mk('len', x.mu): n for x, n in keep.items()}
        FF = {x: subst(x.F, m) for x in grp}
        bad = []
        for x, n in keep.items():
            try:
                if length(FF[x]) is not n:
                    bad.append(x)
            except NotScalar:
                bad.append(x)
        if not bad:
            break
        for x in bad:
            del keep[x]
        FF = {x: x.F for x in grp}
    init = mk('agg', 'init', *[x.x0 for x in grp])
    v = fresh('n', ZERO, sub(K, ONE))
    Fs = mk('agg', 'step', *[subst(FF[x], {k_atom: atom(v)}) for x in grp])
    L = lam([v] + [x.mu for x in grp], Fs)
    kinds = tuple(x.kind for x in grp)
    for i, x in enumerate(grp):
        t = mk('fold', K, init, L, i, kinds)
        if x in keep:
            KEPT.add((L, i))
        x.sol = fold_val(t, x)


def fold_val(t, x):
    k = t.args[4][t.args[3]]
    if k == 'num':
        return atom(t)
    if k == 'seq':
        return base(t, x.tmpl.args[1])
    if k == 'bool':
        return b_atom('val', t)
    if k == 'agg':
        return elem_like(shape(x.tmpl), t)
    return t


def _fold_b(k, init, l, i, kinds):
    if k.op == 'ite':
        return mk_ite(k.args[0], [BOT if x is BOT else _fold_b(x, init, l, i, kinds) for x in k.args[1:]])
    if k is ZERO:
        return init.args[1 + i]
    return mk('fold', k, init, l, i, kinds)


builders['fold'] = _fold_b


def _dc_b(v, i):
    if v.op == 'ite':
        return mk_ite(v.args[0], [BOT if k is BOT else _dc_b(k, i) for k in v.args[1:]])
    if v is BOT:
        return BOT
    if v.op == 'enum':
        if v.args[1] != i:
            return BOT
        return mk('agg', 'pay', *v.args[2:])
    if v.op == 'rat':
        a = as_atom(v)
        if a is not None:
            v = a
    return mk('dc', v, i)


builders['dc'] = _dc_b
