"""Obligations, verdicts, evidence and known findings shared by all checks."""
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import threading
import time
import traceback

sys.setrecursionlimit(200000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import dump
import interp as I_
from interp import Interp, Prog, Unsupported, Diverges, norm_path, UNIT, OPT, RES, none, some, ok
from term import *
import term as T_
import evalterm as E_
import lin


class Timeout(Exception):
    pass


class Missing(Exception):
    pass


class Skip(Exception):
    """the construct an obligation is about is not there in this form"""


START = time.time()


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obl = []           # (name, verdict, detail)
        self.viol = []          # (key, message, where)
        self.analysed = set()
        self.sites = 0
        self.loops = 0
        self.folds = 0
        self.trials = 40 if tier == 'quick' else 160
        self.timeout = 120 if tier == 'quick' else 400
        self.prog = Prog(dump.load())
        self.notes = []
        self.queue = []
        self.unfold = None      # meanings of uninterpreted functions for every comparison

    # ---- program access
    def fn(self, np, optional=False):
        fs = self.prog.norm.get(np)
        if not fs:
            raise (Skip if optional else Missing)(np)
        return fs[0]

    def has(self, np):
        return np in self.prog.norm

    def run(self, np, args, st=None, opaque=(), hooks=None, keep=False, optional=False, dyn_hook=None, unroll=0, ext_hook=None, attempt=0, splits=None):
        """value graph of a function applied to argument terms: (return value, state)"""
        f = self.fn(np, optional)
        return self.run_fn(f, args, st, opaque, hooks, dyn_hook, unroll, ext_hook, attempt, splits)

    def run_fn(self, f, args, st=None, opaque=(), hooks=None, dyn_hook=None, unroll=0, ext_hook=None, attempt=0, splits=None):
        ip = Interp(self.prog, opaque=opaque, hooks=hooks, dyn_hook=dyn_hook)
        ip.unroll = unroll
        ip.attempt = attempt
        ip.max_splits = splits
        ip.ext_hook = ext_hook
        s = {'FX': NIL, 'RNG': ZERO}
        s.update(st or {})
        self.ip = ip
        if len(args) != f['argc']:
            raise Skip('signature of %s' % f['np'])
        try:
            r = ip.run_body(f, list(args), s)
        finally:
            self.analysed |= ip.analysed
            self.sites += ip.sites
            self.loops += len(ip.loopinfo)
            self.folds += sum(l['folds'] for l in ip.loopinfo)
        return r, s

    # ---- obligations
    def oblige(self, name, f, where=None, timeout=None):
        """queue one obligation; f raises or records verdicts through equal / require / violate"""
        self.queue.append((name, f, where, timeout or self.timeout))

    def one(self, name, f, where):
        self.cur = name
        self.where = where
        try:
            f()
        except Missing as e:
            self.viol.append((name + ':missing', 'public function %s is gone' % e, str(e)))
            self.record(name, 'violated', 'missing %s' % e)
        except Skip as e:
            self.record(name, 'undecided', 'not present in this form: %s' % e)
        except Timeout:
            self.record(name, 'undecided', 'time limit')
        except MemoryError:
            self.record(name, 'undecided', 'memory limit')
        except Diverges as e:
            self.violate(name, 'no path through %s returns: it panics or never ends for every argument considered' % e)
        except (Unsupported, NotScalar) as e:
            if os.environ.get('SA_DEBUG') == '2':
                traceback.print_exc()
            self.record(name, 'undecided', '%s: %s' % (type(e).__name__, str(e)[:200]))
        except RecursionError:
            self.record(name, 'undecided', 'recursion')
        except (E_.NoEval,) as e:
            self.record(name, 'undecided', 'no interpretation: %s' % str(e)[:100])
        except (AttributeError, IndexError, KeyError, TypeError, ValueError, AssertionError, ZeroDivisionError) as e:
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            self.record(name, 'undecided', 'form not recognised (%s: %s)' % (type(e).__name__, str(e)[:160]))

    def finish(self):
        """decide the queued obligations, each in a forked process of its own (time and memory limits)"""
        jobs = int(os.environ.get('SA_JOBS', '8'))
        todo = list(self.queue)
        self.queue = []
        running = {}
        results = {}
        n = 0
        end = START + (720 if self.tier == 'quick' else 6 * 3600)
        while todo or running:
            while todo and len(running) < jobs:
                name, f, where, tmo = todo.pop(0)
                left = end - time.time()
                if left < 5:
                    results[n] = ([(name, 'undecided', 'time limit of the whole check')], [], set(), (0, 0, 0), 0)
                    n += 1
                    continue
                tmo = min(tmo, left)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    self.child(name, f, where, w, tmo)
                os.close(w)
                running[r] = (pid, n, name, min(time.time() + tmo + 45, end + 30), [], time.time())
                n += 1
            rs, _, _ = select.select(list(running), [], [], 1.0)
            for r in rs:
                d = os.read(r, 1 << 20)
                if d:
                    running[r][4].append(d)
                    continue
                pid, k, name, _, buf, t0 = running.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                try:
                    results[k] = pickle.loads(b''.join(buf)) + (time.time() - t0,)
                    if results[k][1]:       # a violation is found: what is left gets one more minute
                        end = min(end, time.time() + 60)
                except Exception:
                    results[k] = ([(name, 'undecided', 'analysis process ended')], [], set(), (0, 0, 0), time.time() - t0)
            now = time.time()
            for r in list(running):
                if now > min(running[r][3], end + 30):
                    os.kill(running[r][0], signal.SIGKILL)
        for k in sorted(results):
            obl, viol, an, (s, l, fo), dt = results[k]
            self.obl += obl
            self.viol += viol
            self.analysed |= an
            self.sites += s
            self.loops += l
            self.folds += fo
            if os.environ.get('SA_DEBUG'):
                for o in obl:
                    print('  [%6.2fs] %-10s %s %s' % (dt, o[1], o[0], '' if o[1] == 'proved' else o[2][:1500]))

    def child(self, name, f, where, w, tmo):
        def on_alarm(*a):
            raise Timeout()
        try:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            signal.signal(signal.SIGALRM, on_alarm)
            signal.alarm(int(tmo))
            try:
                self.one(name, f, where)
            except Timeout:
                self.record(name, 'undecided', 'time limit')
            signal.alarm(0)
            d = pickle.dumps((self.obl, self.viol, self.analysed, (self.sites, self.loops, self.folds)))
            while d:
                d = d[os.write(w, d):]
        except BaseException:
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
        finally:
            os._exit(0)

    def record(self, name, verdict, detail=''):
        self.obl.append((name, verdict, detail))

    def require(self, name, b, detail='', where=None):
        """a decided structural condition"""
        if b is True:
            self.record(name, 'proved')
        elif b is False:
            self.violate(name, detail, where)
        else:
            self.record(name, 'undecided', detail)

    def violate(self, name, detail, where=None):
        self.viol.append((name, detail, where or self.where))
        self.record(name, 'violated', detail)

    def equal(self, name, got, want, over=None, assume=None, unfold=None, strict_panic=True, trials=None, maxlen=5, guess=None, free=()):
        """got == want for all inputs?  `over(rng)` supplies constrained inputs for the
        random interpretation, `assume` is a guard under which the equality is claimed."""
        if assume is not None:
            got = ite(assume, agg('if', got), agg('if'))
            want = ite(assume, agg('if', want), agg('if'))
        if got is want:
            self.record(name, 'proved', 'identical normal forms')
            return True
        if same_within(got, want, 5):
            self.record(name, 'proved', 'pointwise identical')
            return True
        odd = opaque_marks(got)
        sep = None
        if not odd:
            # separate first: a proof attempt on forms that differ can take arbitrarily long
            if self.unfold:
                unfold = {**self.unfold, **(unfold or {})}
            sep = self.separate(got, want, over, unfold, strict_panic, trials, maxlen, free)
            if sep[0]:
                self.violate(name, 'computed value differs from the required one at %s' % sep[1])
                return False
        n = trials or self.trials
        agreed = sep is not None and sep[2] >= min(10, n)
        try:
            if self.proof(name, got, want, guess):
                return True
        except (Timeout, MemoryError, RecursionError):
            if not agreed:
                raise
            signal.alarm(30)
        if odd:
            self.record(name, 'undecided', 'unmodelled: %s' % ', '.join(sorted(odd))[:300])
            return None
        if agreed:
            self.record(name, 'consistent', 'normal forms differ but agree under random interpretation (%d assignments)' % sep[2])
            return True
        self.record(name, 'undecided', 'not separated (%d runs) %s' % (sep[2], list(sep[3])[:3]))
        return None

    def proof(self, name, got, want, guess):
        if same_within(got, want):
            self.record(name, 'proved', 'pointwise identical')
            return True
        w2 = same_rounds(got, want)
        if w2 is not want and same_within(got, w2):
            self.record(name, 'proved', 'pointwise identical, the rounds of the loops being equal')
            return True
        if guess is not None and got is not BOT:
            _limit[0] = time.time() + 40
            try:
                g2 = induct(got, guess)
            except GiveUp:
                g2 = got
            finally:
                _limit[0] = None
            if g2 is not got and same_within(g2, want, 60):
                self.record(name, 'proved', 'by induction over the loop rounds')
                return True
        return False

    def separate(self, got, want, over, unfold, strict_panic, trials, maxlen, free=()):
        """random interpretation: (separated?, where, runs, reasons for skipped runs)"""
        n = trials or self.trials
        hit = 0
        strong = 0
        ran = 0
        why = None
        errs = {}
        for mode, k in [(None, k) for k in range(n * 3)] + [(m, k) for k in range(n * 2) for m in ('grid', 'scale')]:
            if mode is None:
                if ran >= n:
                    continue
                rng = random.Random(1000003 * k + 17)
            else:
                rng = E_.Grid(1000003 * k + 29)
                rng.mode = mode
            try:
                ov = over(rng) if over else {}
                env = E_.Env(seed=k, over=ov, unfold=unfold, maxlen=maxlen, mode=mode)
                w = env.ev(want)
            except E_.Undef as e:
                continue
            except E_.NoEval as e:
                errs['want: ' + str(e)[:80]] = 1
                continue
            try:
                g = E_.Env(seed=k, over=ov, unfold=unfold, maxlen=maxlen, mode=mode).ev(got)
            except E_.Panic as e:
                ran += 1
                if strict_panic:
                    hit += 1
                    strong += 1
                    why = why or 'a panic where a value is required (%s)' % e
                    if strong >= 2:
                        break
                continue
            except E_.Undef as e:
                errs['undef: ' + str(e)[:80]] = 1
                continue
            except E_.NoEval as e:
                errs[str(e)[:80]] = 1
                continue
            ran += 1
            if mode is None:
                d = E_.differs(g, w)
                sure = d and E_.differs(g, w, 1e-4)
            else:
                d = sure = E_.differs(g, w, E_.EXACT)
            if d:
                hit += 1
                why = why or d
                if sure:
                    strong += 1
                if strong >= 2:
                    break
        if strong < 1 and hit < 3 and ran >= min(10, n):
            w = self.at_guards(got, want, over, unfold, strict_panic, maxlen, free)
            if not w:
                w = self.at_counts(got, want, over, unfold, strict_panic)
            if w:
                return True, w, ran, errs
        return (strong >= 1 or hit >= 3), why, ran, errs

    def at_counts(self, got, want, over, unfold, strict_panic):
        """random interpretation with counts around those that only the computed value compares with"""
        t0 = time.time()
        cs = counts_in(got) - counts_in(want)
        for c in sorted(c for c in cs if c + 1 not in cs)[:6]:
            for k in range(40):
                if time.time() - t0 > 25:
                    break
                rng = Around(7907 * k + 11)
                rng.near = c * (1, 1, 4)[k % 3]
                try:
                    ov = over(rng) if over else {}
                    env = lambda: E_.Env(seed=k, over=ov, unfold=unfold, maxlen=c + 2, near=c)
                    w = env().ev(want)
                    try:
                        g = env().ev(got)
                    except E_.Panic as e:
                        if strict_panic:
                            return 'a panic where a value is required (%s)' % e
                        continue
                except (E_.Undef, E_.NoEval, E_.Panic, OverflowError, ZeroDivisionError, IndexError, ValueError):
                    continue
                why = E_.differs(g, w)
                if why and E_.differs(g, w, 1e-4):
                    return why
        return None

    def at_guards(self, got, want, over, unfold, strict_panic, maxlen, free=(), per=40):
        """random interpretation on both sides of each guard that only the computed value has"""
        cs = [c for c in guards_in(got) - guards_in(want) if not E_.fbv(c)]
        cs.sort(key=lambda c: (c.size, c.h))
        t0 = time.time()
        for c in cs[:16]:
            xs = sorted(free_numbers(c), key=lambda t: t.h)
            done = hits = 0
            for k in range(per * 2):
                if done >= per or time.time() - t0 > 25:
                    break
                rng = random.Random(7919 * k + 31)
                try:
                    ov = over(rng) if over else {}
                    cand = [x for x in xs if x in free or not any(occurs(o, x) for o in ov)]
                    if not cand:
                        break
                    x = cand[rng.randrange(len(cand))]
                    r = root_of(c, x, ov, k, unfold, maxlen, rng)
                    if r is None:
                        continue
                    d = 10.0 ** -rng.randint(1, 11) * rng.choice([1, -1]) * rng.uniform(0.3, 1)
                    v = r + d
                    if (x in T_.facts.pos or x in T_.facts.nonneg or 'pos' in x.args) and v <= 0:
                        continue
                    ov = dict(ov)
                    ov[x] = v
                    w = E_.Env(seed=k, over=ov, unfold=unfold, maxlen=maxlen).ev(want)
                    try:
                        g = E_.Env(seed=k, over=ov, unfold=unfold, maxlen=maxlen).ev(got)
                    except E_.Panic as e:
                        if strict_panic:
                            return 'a panic where a value is required (%s)' % e
                        continue
                except (E_.Undef, E_.NoEval, OverflowError, ZeroDivisionError):
                    continue
                done += 1
                why = E_.differs(g, w)
                if why:
                    hits += 1
                    if hits >= 4 or E_.differs(g, w, 1e-4):
                        return why
        return None


def folds_in(t):
    """the folds of a value graph: {(count, init, step, kinds): {component: term}}, innermost first"""
    out = {}
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        ch = []
        for a in x.args:
            T_._child(a, ch)
        for c in ch:
            go(c)
        if x.op == 'fold':
            out.setdefault((x.args[0], x.args[1], x.args[2], x.args[4]), {})[x.args[3]] = x
    go(t)
    return out


def same_rounds(got, want):
    """want with the loop bodies of got wherever these are provably the same function"""
    for _ in range(6):
        have = {k[2]: k for k in folds_in(got)}
        for K, init, L, kinds in folds_in(want):
            if L in have:
                continue
            for L2, (K2, init2, _, kinds2) in have.items():
                if kinds != kinds2 or len(L.args[0]) != len(L2.args[0]):
                    continue
                xs = [atom(mk('sym', 'round'))]
                for i, kd in enumerate(kinds):
                    m = mk('sym', 'state%d' % i)
                    xs.append(atom(m) if kd == 'num' else None)
                if None in xs:
                    continue
                if same_within(inst(L, *xs), inst(L2, *xs), 10):
                    w = subst(want, {L: L2})
                    if w is not want:
                        want = w
                        break
            else:
                continue
            break
        else:
            return want
    return want


def induct(t, guess):
    """replace every fold of t whose invariant is provable.  guess(count, init, step, kinds)
    returns None or (inv, nxt): lists of state values as functions of the round number;
    proved are inv(0) = init and step(k, inv(k)) = nxt(k), with nxt(k) the definition of inv(k+1)."""
    for _ in range(6):
        done = False
        for (K, init, L, kinds), comps in folds_in(t).items():
            g = guess(K, init, L, kinds)
            if g is None:
                continue
            inv, nxt = g
            x0 = list(init.args[1:])
            if not all(same(a, b) for a, b in zip(x0, inv(ZERO))):
                continue
            v = fresh('n', ZERO, sub(K, ONE))
            st = []
            for x, kd in zip(inv(atom(v)), kinds):
                st.append(x)
            F = inst(L, atom(v), *st)
            if not all(same(a, b) for a, b in zip(F.args[1:], nxt(atom(v)))):
                continue
            fin = inv(K)
            t2 = subst(t, {x: fin[i] for i, x in comps.items()})
            if t2 is not t:
                t = t2
                done = True
                break
        if not done:
            return t
    return t


def opaque_marks(t, seen=None, out=None):
    """unmodelled constructs inside a term"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'app' and (str(x.args[0]).startswith('?') or str(x.args[0]).startswith('rec:')):
            out.add(str(x.args[0]))
        if x.op in ('mu', 'uninit'):
            out.add(x.op)
        ch = []
        for a in x.args:
            T_._child(a, ch)
        st.extend(ch)
    return out


_same = {}


def _dag(t):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            T_._child(a, todo)
    return seen


def guards_in(t):
    """the conditions that compare numbers"""
    return set(x for x in _dag(t) if x.op in ('c_pos', 'c_sgn') or x.op == 'c_b' and x.args[0] in ('near', 'ulps'))


def counts_in(t):
    """the whole numbers that whole numbers are compared with"""
    out = set()
    for x in _dag(t):
        if x.op not in ('c_pos', 'c_sgn', 'c_eq') or not isinstance(x.args[0], T) or x.args[0].op != 'rat' or x.args[0].args[1]:
            continue
        num = dict(x.args[0].args[0])
        c = num.pop((), 0)
        for q in set(num.values()):
            for d in (0, 1, -1):
                v = abs(Fraction(c) + d) / abs(Fraction(q))
                if v.denominator == 1 and 3 <= v <= 600:
                    out.add(int(v))
    return out


class Around(random.Random):
    """draws sizes around a given one now and then"""
    def randint(self, a, b):
        if a >= 0 and b - a >= 2 and self.random() < 0.4:
            return max(a, self.near + super().randint(-2, 2))
        return super().randint(a, b)


def free_numbers(c):
    """real inputs a condition depends on: numbers and components of vectors"""
    out = set()
    for x in _dag(c):
        if x.op == 'rat':
            for m, _ in x.args[0]:
                for a, _ in m:
                    if a in T_.facts.ints or a in T_.facts.lo or a in T_.facts.hi:
                        continue
                    if a.op == 'sym' and 'u' not in a.args[1:] and a.args[0] not in ('pi', 'fmax', 'inf', 'nan') or a.op == 'proj' and a.args[0].op == 'sym':
                        out.add(a)
    return out


def root_of(c, x, ov, seed, unfold, maxlen, rng):
    """a value of x near which the guard changes its answer"""
    if c.op == 'c_b':
        side = lambda e: abs(e.scalar(e.ev(c.args[1]))) - max(e.scalar(e.ev(c.args[2])), 1e-15)
    else:
        side = lambda e: e.scalar(e.ev(c.args[0]))

    def f(v):
        o = dict(ov)
        o[x] = v
        return float(side(E_.Env(seed=seed, over=o, unfold=unfold, maxlen=maxlen)))
    pts = sorted([rng.uniform(-2.5, 2.5) for _ in range(6)])
    vals = []
    for v in pts:
        try:
            vals.append((v, f(v)))
        except (E_.Undef, E_.Panic):
            pass
    pairs = [(a, b) for a, b in zip(vals, vals[1:]) if a[1] * b[1] < 0]
    if not pairs:
        return None
    (a, fa), (b, fb) = pairs[rng.randrange(len(pairs))]
    for _ in range(60):
        m = (a + b) / 2
        fm = f(m)
        if fm == 0 or b - a < 1e-15:
            return m
        if fa * fm < 0:
            b = m
        else:
            a, fa = m, fm
    return (a + b) / 2


class GiveUp(Exception):
    pass


_limit = [None]


def same_within(a, b, seconds=20):
    """`same` within a time limit"""
    _limit[0] = time.time() + seconds
    try:
        return same(a, b)
    except GiveUp:
        return False
    finally:
        _limit[0] = None


def same(a, b, path=(), depth=0):
    """provable equality beyond identity: pointwise on sequences and aggregates, case by case
    on the conditions, dropping cases the linear constraints exclude"""
    if a is b:
        return True
    if depth > 14 or len(path) > 14:
        return False
    if _limit[0] is not None and time.time() > _limit[0]:
        raise GiveUp()
    key = (a, b, path)
    if key in _same:
        return _same[key]
    _same[key] = False
    r = _same[key] = _same1(a, b, path, depth)
    return r


path_hooks = []      # (cond, branch, system) -> True when that branch is excluded


def _mismatch(a, b, path, depth):
    """leaves that differ: excluded by the path, or equal once its equations are used?"""
    if not path:
        return False
    s = lin.path_system(path)
    if s.infeasible():
        return True
    for c, i in path:
        if c.op == 'c_b' and any(h(c, i, s) for h in path_hooks):
            return True
    if a is BOT or b is BOT:
        return False
    for x, v in lin.equalities(s, path):
        a2, b2 = subst(a, {x: v}), subst(b, {x: v})
        if a2 is b2:
            return True
        p2 = tuple((subst(c, {x: v}), i) for c, i in path)
        p2 = tuple((c, i) for c, i in p2 if c.op.startswith('c_'))
        if lin.path_system(p2).infeasible():
            return True
        if (a2 is not a or b2 is not b) and depth < 12:
            if same(a2, b2, p2, depth + 3):
                return True
    return False


def same_part(a, b, path, depth):
    """parts of two lists, side by side"""
    if a is b:
        return True
    if a.op == 'unit' and b.op == 'unit' and a.args[0].op != 'lit':
        return same(a.args[0], b.args[0], path, depth)
    if a.op == 'flat' and b.op == 'flat' and same(a.args[0], b.args[0], path, depth):
        v = fresh('n', ZERO, sub(a.args[0], ONE))
        return same(inst(a.args[1], atom(v)), inst(b.args[1], atom(v)), path, depth)
    return False


def _same1(a, b, path, depth):
    if a.op == 'ite' or b.op == 'ite':
        c = min((x.args[0] for x in (a, b) if x.op == 'ite'), key=ckey)
        for i in range(arity(c)):
            p2 = path + ((c, i),) if c.op in ('c_pos', 'c_eq', 'c_b', 'c_sgn') else path
            x, y = deep_cof(a, c, i), deep_cof(b, c, i)
            if x is y:
                continue
            if same(x, y, p2, depth):
                continue
            return False
        return True
    if a.op == 'rat' and b.op == 'rat' and sub(a, b) is ZERO:
        return True
    if a.op in ('agg', 'enum', 'rv') and a.op == b.op and len(a.args) == len(b.args):
        good = True
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) and isinstance(y, T):
                if not same(x, y, path, depth + 1):
                    good = False
                    break
            elif x != y:
                good = False
                break
        return good or _mismatch(a, b, path, depth)
    if is_seq(a) and is_seq(b):
        p, q = parts(a), parts(b)
        if len(p) == len(q) and any(x.op == 'flat' for x in p) and all(same_part(x, y, path, depth + 1) for x, y in zip(p, q)):
            return True
        try:
            n, m = length(a), length(b)
            if n.op == 'rat' and same(n, m, path, depth + 1) and not any(x.op == 'flat' for x in parts(a) + parts(b)):
                v = fresh('n', ZERO, sub(n, ONE))
                x, y = get(a, atom(v)), get(b, atom(v))
                if same(x, y, path, depth + 1):
                    return True
        except (NotScalar, Unsupported):
            pass
    return _mismatch(a, b, path, depth)


def parts(s):
    return list(s.args) if s.op == 'cat' else [s]


# ------------------------------------------------------------------ helpers
def sym(n, kind=None):
    s = mk('sym', n)
    if kind == 'u':
        facts.nonneg.add(s)
    elif kind == 'pos':
        facts.pos.add(s)
    return s


def num(n, kind=None):
    return atom(sym(n, kind))


def vec(*xs):
    return agg('vec', *xs)


def v3(n):
    t = sym(n)
    return vec(*[atom(proj_(t, (i,))) for i in range(3)])


def v2(n):
    t = sym(n)
    return vec(*[atom(proj_(t, (i,))) for i in range(2)])


def vadd(a, b):
    return vec(*[add(x, y) for x, y in zip(a.args[1:], b.args[1:])])


def vsub(a, b):
    return vec(*[sub(x, y) for x, y in zip(a.args[1:], b.args[1:])])


def vscale(k, a):
    return vec(*[mul(k, x) for x in a.args[1:]])


def dot(a, b):
    return add(*[mul(x, y) for x, y in zip(a.args[1:], b.args[1:])])


def cross(a, b):
    x, y = a.args[1:], b.args[1:]
    return vec(*[sub(mul(x[(i + 1) % 3], y[(i + 2) % 3]), mul(x[(i + 2) % 3], y[(i + 1) % 3])) for i in range(3)])


def unit_frame(name):
    """a right-handed orthonormal frame (x, y, z), all of them, via a rational quaternion"""
    a, b, c, d = [num('%s.q%d' % (name, i)) for i in range(4)]
    n = add(*[mul(x, x) for x in (a, b, c, d)])
    two = const(2)
    aa, bb, cc, dd = [mul(x, x) for x in (a, b, c, d)]
    X = vec(div(sub(add(aa, bb), add(cc, dd)), n), div(mul(two, add(mul(b, c), mul(a, d))), n), div(mul(two, sub(mul(b, d), mul(a, c))), n))
    Y = vec(div(mul(two, sub(mul(b, c), mul(a, d))), n), div(sub(add(aa, cc), add(bb, dd)), n), div(mul(two, add(mul(c, d), mul(a, b))), n))
    Z = vec(div(mul(two, add(mul(b, d), mul(a, c))), n), div(mul(two, sub(mul(c, d), mul(a, b))), n), div(sub(add(aa, dd), add(bb, cc)), n))
    return X, Y, Z


def seq3(name):
    """a sequence of points"""
    return base(sym(name), shape(v3('s')))


def seq_of(name, sample):
    return base(sym(name), shape(sample))


def slen(name):
    return atom(mk('len', sym(name)))


def rv(x):
    return mk('rv', x)


def vcall(path, dim, *args):
    """result vector of an uninterpreted call, the way the interpreter builds it"""
    def go(args):
        best = None
        for a in args:
            for c in deep_conds(a):
                if best is None or ckey(c) < ckey(best):
                    best = c
        if best is not None:
            return T_.mk_ite(best, [go([deep_cof(a, best, b) for a in args]) for b in range(arity(best))])
        t = mk('app', path, *args)
        return atom(t) if dim == 1 else vec(*[atom(proj_(t, (i,))) for i in range(dim)])
    return go(list(args))


def argmin_of(n, f, strict=True):
    """the first index below n with the least f"""
    import loops
    v = fresh('n', ZERO, sub(n, ONE))
    return loops.arg_atom(n, v, f(atom(v)), TRUE, 1 if strict else 0)


def fold_seq(K, S0, step):
    """K rounds of an in-place update of a sequence: step(round, sequence) -> sequence of equal length"""
    import loops
    v = fresh('n', ZERO, sub(K, ONE))
    x = mk('mu', 'spec%d' % id(step), 'x')
    body = subst(step(atom(v), base(x, shape_of(S0))), {mk('len', x): length(S0)})
    L = T_.lam([v, x], agg('step', body))
    t = mk('fold', K, agg('init', S0), L, 0, ('seq',))
    loops.KEPT.add((L, 0))
    return base(t, shape_of(S0))


def fold_nums(K, xs, step):
    """K rounds of numbers xs = step(round, *xs), in the normal form of the loop summaries"""
    import loops

    class Leaf:
        pass
    k = fresh('n', ZERO, sub(K, ONE))
    out = []
    for i, x0 in enumerate(xs):
        l = Leaf()
        l.mu, l.x0, l.kind, l.root, l.path, l.tmpl, l.sol = mk('mu', 'spec%d.%d' % (id(step), i), 'n'), x0, 'num', 'spec', (i,), None, None
        out.append(l)
    for l, f in zip(out, step(atom(k), *[atom(l.mu) for l in out])):
        l.F = f
    loops.fold_rest(out, k, K)
    return [l.sol for l in out]


def fold_num(K, x0, step):
    return fold_nums(K, [x0], lambda k, x: [step(k, x)])[0]


def shape_of(S):
    return T_.lift_leaves(lambda s: shape(get(s, ZERO)), S) if S.op != 'base' else S.args[1]


def norm2(v):
    return dot(v, v)


def norm_(v):
    return sqrt(dot(v, v))


def fix_len(name, n):
    """the sequence called `name` has length n (a term)"""
    s = sym(name)
    T_.len_hooks.append(lambda t: n if t is s else None)


def at_least(name, n):
    """lower bound on the length of the sequence called `name`"""
    facts.lo[mk('len', sym(name))] = const(n) if isinstance(n, int) else n


# ------------------------------------------------------------------- reporting
def known(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = set()
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                f = dict(x.split('=', 1) for x in l[9:].split(' ', 2)[:2] if '=' in x)
                if f.get('property') == pid:
                    out.add(f.get('key'))
    return out


def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    box = []

    def go():
        try:
            box.append(run_check(checks, a.pid, a.tier))
        except BaseException:
            traceback.print_exc()
            box.append(2)
    threading.stack_size(1 << 30)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(box[0])


def run_check(checks, pid, tier):
    t0 = time.time()
    meta = checks[pid]
    try:
        ck = Check(pid, tier)
    except dump.BuildError as e:
        print('the tree does not type-check: %s' % e)
        return 2
    meta['run'](ck)
    ck.finish()
    kn = known(pid)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rep = os.path.join(VERIF, 'evidence', pid + '.report.txt')
    fresh_, old = [], []
    for key, msg, where in ck.viol:
        (old if key in kn else fresh_).append((key, msg, where))
    with open(rep, 'w') as f:
        for key, msg, where in ck.viol:
            f.write('%s%s\n  at %s\n  %s\n' % ('known: ' if key in kn else '', key, where, msg))
        for n, v, d in ck.obl:
            f.write('%-10s %s  %s\n' % (v, n, d))
    dec = [o for o in ck.obl if o[1] == 'proved']
    con = [o for o in ck.obl if o[1] == 'consistent']
    und = [o for o in ck.obl if o[1] == 'undecided']
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': meta['level'],
        'coverage': {
            'explanation': '%d obligations: %d discharged, %d violated, %d undecided. Rule: %s' % (len(ck.obl), len(dec), len(ck.viol), len(und), meta['rule']),
            'obligations': len(ck.obl), 'discharged': len(dec), 'undecided': [[n, d[:200]] for n, _, d in und],
            'functions_analysed': sorted(ck.analysed), 'call_sites': ck.sites, 'loops_summarised': ck.loops, 'loops_kept_as_folds': ck.folds,
            'obligation_list': [[n, v, d[:160]] for n, v, d in ck.obl],
        },
        'assumptions': meta.get('assumptions', []),
        'violations': len(fresh_),
        'wall_s': round(time.time() - t0, 2),
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %.1fs' % (pid, len(ck.obl), len(dec), len(und), time.time() - t0))
    for key, msg, where in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, key))
    for key, msg, where in fresh_:
        print('  %s at %s: %s' % (key, where, msg[:400]))
    if fresh_:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if not ck.obl:
        print('no obligation was generated')
        return 2
    return 0
