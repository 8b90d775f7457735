"""What happens when an operation of the operating system fails, and what happens without being asked for."""
from framework import *
from checks.mesh import *
from checks import step

OPS = {'std::io::Write::write_fmt', 'std::io::Write::write_all', 'std::io::Write::flush', 'std::io::Write::write', 'std::io::Write::write_vectored',
       'std::io::Seek::seek', 'std::io::Seek::rewind', 'std::fs::File::create', 'std::fs::File::open', 'std::fs::read', 'std::fs::read_to_string', 'std::fs::write',
       'std::fs::File::sync_all', 'std::fs::File::sync_data', 'std::fs::File::set_len', 'std::io::BufWriter::into_inner', 'std::io::LineWriter::into_inner',
       'std::io::Read::read_to_end', 'std::io::Read::read_to_string', 'std::fs::File::create_new', 'std::fs::OpenOptions::open', 'svg::save', 'iso_10303::step::StepReader::read'}
MEMORY = ('std::vec::Vec', 'std::string::String', 'std::io::Cursor')
BAD = mk('sym', 'fault')


class Fault:
    """the k-th execution of one call of the operating system fails; k is unknown"""

    def __init__(self, site=None, extra=None):
        self.site = site
        self.sites = []
        self.extra = extra
        facts.nonneg.add(sym('k'))
        self.k = num('k', 'u')

    def hook(self, ip, fnref, path, args, st, dty):
        if self.extra is not None and path not in OPS:
            r = self.extra(ip, fnref, path, args, st, dty)
            if r is not None:
                return r
        name = path
        if name in ('std::io::BufWriter::new', 'std::io::BufWriter::with_capacity'):
            st['BUFFERED'] = TRUE
        if name not in OPS:
            return None
        if name in ('iso_10303::step::StepReader::read',):
            return None
        if fnref.get('trait') or name.startswith('std::io::Write') or name.startswith('std::io::Seek'):
            a = ip.ty(fnref['args'][0]) if fnref.get('args') else {}
            n = a.get('n') or a.get('s') or ''
            while a.get('k') == 'ref' and 't' in a:
                a = ip.ty(a['t'])
                n = a.get('n') or a.get('s') or ''
            if n.startswith(MEMORY):
                return None
        if all(fnref is not x for x, _ in self.sites):
            self.sites.append((fnref, name))
        i = st['IOC']
        failed = FALSE
        if fnref is self.site:
            st['IOC'] = add(i, ONE)
            failed = int_eq(i, self.k)
        last = name.split('::')[-1]
        if last in ('write_fmt', 'write_all', 'write'):
            st['DIRTY'] = st['BUFFERED']
        if last in ('flush', 'into_inner', 'seek', 'rewind'):
            st['DIRTY'] = FALSE
        if last == 'write':
            # the number of bytes taken is not known: at the failing operation it is less than all
            good = ok(atom(mk('app', 'taken', i)))
            st['SHORT'] = b_or(st['SHORT'], failed)
            return good
        if last in ('create', 'open', 'create_new'):
            st['FILE0'] = NIL
            good = ok(mk('ref', 'FILE0', ()))
        elif last == 'into_inner':
            good = ok(args[0])
        elif last in ('read', 'read_to_string') and name.startswith('std::fs'):
            good = ok(base(mk('app', 'fsread'), mk('shape', 'x')))
        elif last in ('seek',):
            good = ok(atom(mk('app', 'position', i)))
        else:
            good = ok(UNIT)
        return ite(failed, T_.enum(RES, 1, BAD), good)


def start():
    return {'IOC': ZERO, 'BUFFERED': FALSE, 'DIRTY': FALSE, 'SHORT': FALSE}


def is_err(r):
    def leaf(x):
        if x is BOT:
            return BOT
        if x.op != 'enum' or x.args[0] != RES:
            raise Unsupported('result %s' % x.op)
        return TRUE if x.args[1] == 1 else FALSE
    return T_.lift_leaves(leaf, r)


def p_errors(ck):
    def go(name, path, args, over=None, extra=None, st=None, unfold=None, exact=True, **kw):
        def run(fl):
            s = start()
            s.update(st() if st else {})
            return ck.run(path, args(), ext_hook=fl.hook, st=s, opaque=(MESH,), **kw)

        def f():
            fl = Fault(None, extra)
            r, s = run(fl)
            ck.equal(name + '/flushed', b_and(T_.b_not(is_err(r)), s['DIRTY']), FALSE, over=over, unfold=unfold)
            if not fl.sites:
                raise Unsupported('no call of the operating system seen')

            def env(rng):
                o = dict(over(rng)) if over else {}
                o[sym('k')] = rng.randint(0, 4) if rng.random() < 0.8 else 10 ** 6
                return o
            for n, (ref, op) in enumerate(fl.sites):
                nm = '%s/%d:%s' % (name, n, op.split('::')[-1])
                one = Fault(ref, extra)
                r, s = run(one)
                hit = int_lt(one.k, s['IOC'])
                e = is_err(r)
                if exact:
                    ck.equal(nm + '/reported', e, hit, over=env, unfold=unfold)
                else:
                    ck.equal(nm + '/reported', b_and(hit, T_.b_not(e)), FALSE, over=env, unfold=unfold)
                ck.equal(nm + '/whole', s['SHORT'], FALSE, over=env, unfold=unfold)
        ck.oblige(name, f, path, timeout=400)
    path = sym('path')
    one = lambda: [rv(mesh_of('M')), path]
    om = lambda rng: {sym('M'): rand_mesh(rng)}
    model = lambda: [rv(agg(MODEL, base(sym('F'), shape(sym('s'))), base(sym('C'), mk('shape', 'x')))), path]
    go('obj/write', TM + '::write_obj', lambda: [rv(mesh_of('M')), mk('ref', 'W', ()), num('a', 'u'), num('b', 'u')], om, st=lambda: {'W': NIL})
    go('obj/mesh', TM + '::save_as_obj', one, om)
    go('obj/model', MODEL + '::save_as_obj', model, unfold={MESH: mesh_env(None)})
    go('stl', MODEL + '::save_as_stl', model, unfold={MESH: mesh_env(None)})
    for f, s in (('points::save_point_cloud', lambda: seq3('P')), ('points::save_points', lambda: base(sym('P'), shape(v2('s')))),
                 ('points::save_point_cloud_with_normal', lambda: base(sym('P'), shape(agg('tuple', v3('s'), v3('t')))))):
        go(f.split('::')[1], f, lambda s=s: [rv(s()), path])
    go('bound', 'surface::bspline::save_bound_as_obj', lambda: [rv(seq3('P')), path])
    go('load', 'points::load_point_cloud', lambda: [path], exact=False)

    def lines():
        # a line that cannot be read: the error is that of reading it, or of a number before it
        import models
        text = mk('app', 'fsread', path)
        L = mk('app', 'lines', text)
        n = atom(mk('len', L))
        r, _ = ck.run('points::load_point_cloud', [path])
        lost = int_lt(T_.first(n, lambda i: models.unreadable(L, i)), n)

        def content(rng):
            return '\n'.join(rng.choice(['1 2 3', '4 5 6 7', '', '# note', '\x00', '1 2']) for _ in range(rng.randint(1, 5)))
        ck.equal('load/lines', b_and(lost, T_.b_not(is_err(r))), FALSE, over=lambda rng: {text: ('str', content(rng))})
    ck.oblige('load/lines', lines, 'points::load_point_cloud')

    def drawing():
        from checks import svg_
        seg = agg(svg_.CS, agg(svg_.LI, v3('o'), v3('d')), agg('tuple', num('a'), num('b')), num('t'), num('m', 'u'))
        return [rv(agg(MODEL, base(sym('F'), mk('shape', 'x')), cat(unit(agg(svg_.POLY, cat(unit(seg))))))), path, agg('tuple', num('w'), num('h'))]
    from checks.svg_ import Drawing
    go('svg', MODEL + '::save_as_svg', drawing, extra=Drawing().hook, unroll=-16)

    def reader():
        w = step.World()
        fl = Fault(None, w.hook)
        w.heads = {}

        def pre(ip, fnref, path, args, st, dty):
            if path.split('::')[-1] == 'read' and path.startswith(('iso_10303', 'iso_10303_parts')):
                fl.sites.append((fnref, path))
                return T_.enum(RES, 1, BAD)
            return w.hook(ip, fnref, path, args, st, dty)
        r, _ = ck.run(step.READ, [path], ext_hook=pre)
        if not fl.sites:
            raise Unsupported('no call of the parser seen')
        ck.equal('read-model', is_err(r), TRUE)
    ck.oblige('read-model', reader, step.READ)
