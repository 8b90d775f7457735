"""Which functions can touch the outside world: a call graph over the MIR with effect sites, and for each kind
of effect the functions through which alone it may be reached."""
from framework import *
from interp import norm_path

FS = 'std::fs::'
KINDS = {
    'file-write': (lambda p: p in ('std::fs::write', 'std::fs::copy', 'std::fs::rename', 'std::fs::hard_link', 'svg::save', 'std::fs::File::create', 'std::fs::File::create_new',
                                   'std::fs::File::create_buffered', 'std::fs::OpenOptions::open', 'std::fs::set_permissions', 'std::fs::File::set_len', 'std::fs::File::options')
                   or p.startswith(('std::fs::remove', 'std::fs::create_dir', 'std::fs::DirBuilder', 'std::os::unix::fs')),
                   'the functions that save (save_..)', lambda f: f['name'].startswith('save_')),
    'file-read': (lambda p: p in ('std::fs::read', 'std::fs::read_to_string', 'std::fs::File::open', 'std::fs::File::open_buffered', 'std::fs::read_dir', 'std::fs::metadata', 'std::fs::exists',
                                  'std::path::Path::exists', 'std::path::Path::is_file', 'std::path::Path::is_dir', 'std::path::Path::metadata', 'std::path::Path::canonicalize', 'std::fs::canonicalize',
                                  'svg::open') or p.endswith('StepReader::read') or (p.startswith('iso_10303') and p.endswith('::read')),
                  'the functions that load and read (load_.., read_..)', lambda f: f['name'].startswith(('load_', 'read_'))),
    'print': (lambda p: p in ('std::io::_print', 'std::io::_eprint', 'std::io::stdout', 'std::io::stderr', 'std::io::stdin'), 'read_model (report of what is not supported)',
              lambda f: f['name'] == 'read_model'),
    'random': (lambda p: p.startswith(('rand::', 'rand_core::', 'getrandom::', 'fastrand::', 'std::collections::hash_map::RandomState', 'std::hash::RandomState', 'std::random::')),
               'parameter_division', lambda f: f['name'] == 'parameter_division'),
    'order-of-hashing': (lambda p: p.startswith(('std::collections::HashMap::', 'std::collections::HashSet::', 'std::collections::hash_map::', 'std::collections::hash_set::',
                                                 '<&std::collections::Hash', '<std::collections::Hash', "<&'a std::collections::Hash", "<std::collections::hash_map", "<std::collections::hash_set"))
                         and p.split('::')[-1] in ('iter', 'iter_mut', 'into_iter', 'keys', 'values', 'values_mut', 'drain', 'into_keys', 'into_values', 'next', 'retain', 'union', 'intersection', 'difference'),
                         'read_model (bounds of a face)', lambda f: f['name'] == 'read_model'),
    'surroundings': (lambda p: p.startswith(('std::env::', 'std::process::', 'std::time::', 'std::net::', 'std::os::', 'chrono::')) or p.startswith('std::thread::') and 'LocalKey' not in p
                     and 'panicking' not in p, 'nothing', lambda f: False),
    'memory-between-calls': (lambda p: p.startswith(('std::thread::LocalKey::', 'std::thread::local_impl', 'lazy_static::', 'once_cell::')), 'nothing', lambda f: False),
}


class Graph:
    def __init__(self, prog):
        self.prog = prog
        self.d = prog.d
        self.statics = {s['path']: s for s in self.d['statics']}
        self.methods = {}       # (trait, method) -> implementations
        for im in self.d['impls']:
            if im['trait']:
                for n, k in im['items']:
                    self.methods.setdefault((im['trait'], n), []).append(k)
        for t in self.d['traits']:
            for n, k, has, _ in t['items']:
                if has:
                    self.methods.setdefault((t['path'], n), []).append(k)
        self.edges, self.ext, self.state = {}, {}, {}
        for f in self.d['fns']:
            es, xs, ss = set(), [], []
            for b in f['blocks']:
                if b['cleanup']:
                    continue
                self.walk(b, es, xs, ss, b['t'].get('sp'))
            for p in f['promoted']:
                self.walk(p, es, xs, ss, f['span'])
            self.edges[f['key']], self.ext[f['key']], self.state[f['key']] = es, xs, ss

    def walk(self, x, es, xs, ss, sp):
        if isinstance(x, dict):
            if 'sp' in x and isinstance(x['sp'], list):
                sp = x['sp']
            if 'key' in x and 'path' in x and 'args' in x:
                self.ref(x, es, xs, sp)
            elif x.get('k') == 'closure' and 'key' in x:
                es.add(x['key'])
            if 'static' in x:
                ss.append((x['static'], sp))
            if 'fnptr' in x:
                xs.append((norm_path(x['fnptr']), sp))
            for n, v in x.items():
                if n != 'res':
                    self.walk(v, es, xs, ss, sp)
        elif isinstance(x, list):
            for v in x:
                self.walk(v, es, xs, ss, sp)

    def ref(self, r, es, xs, sp):
        t = r.get('res') or r
        if t.get('k') != 'virtual' and t.get('key') in self.prog.fns and not (r.get('trait') and not r.get('res')):
            es.add(t['key'])
            return
        if r.get('trait'):
            for k in self.methods.get((r['trait'], r['name']), []):
                es.add(k)
            if not r.get('local'):
                xs.append((norm_path(t['path']), sp))
                if t is not r:
                    xs.append((norm_path(r['path']), sp))
            return
        xs.append((norm_path(t['path']), sp))
        # a function path used as a value
        if t.get('key') in self.prog.fns:
            es.add(t['key'])

    def roots(self):
        return [f for f in self.d['fns'] if f['kind'] != 'Closure' and (f['pub'] or f.get('trait') or f.get('impl_trait'))]

    def reach(self, stop):
        """functions reached from the public ones without passing through a function for which stop holds: key -> caller"""
        seen = {}
        todo = []
        for f in self.roots():
            if not stop(f):
                seen[f['key']] = None
                todo.append(f['key'])
        while todo:
            k = todo.pop()
            for n in self.edges[k]:
                if n in seen or n not in self.prog.fns:
                    continue
                f = self.prog.fns[n]
                if f['kind'] != 'Closure' and stop(f):
                    continue
                seen[n] = k
                todo.append(n)
        return seen

    def chain(self, seen, k):
        out = [k]
        while seen[k] is not None:
            k = seen[k]
            out.append(k)
        return ' <- '.join(self.prog.fns[x]['np'] for x in out)


def p_effects(ck):
    def go():
        g = Graph(ck.prog)
        ck.analysed |= set(f['np'] for f in ck.prog.d['fns'])
        nfn = len(ck.prog.d['fns'])
        ncall = sum(len(v) for v in g.ext.values()) + sum(len(v) for v in g.edges.values())
        ck.sites += ncall
        for kind, (is_site, gate, stop) in KINDS.items():
            seen = g.reach(stop)
            bad = 0
            for k in sorted(seen):
                for p, sp in g.ext[k]:
                    if is_site(p):
                        bad += 1
                        ck.violate('%s/%s' % (kind, ck.prog.fns[k]['np']), 'call of %s at %s, reached without passing through %s: %s' % (p, loc(sp), gate, g.chain(seen, k)), loc(sp))
            if not bad:
                n = sum(1 for v in g.ext.values() for p, _ in v if is_site(p))
                ck.record(kind, 'proved', '%d functions reached without passing through %s; %d sites of this kind in all' % (len(seen), gate, n))
        seen = g.reach(lambda f: False)
        bad = 0
        for k in sorted(seen):
            for s, sp in g.state[k]:
                st = g.statics.get(s)
                if st is None or st['fixed']:
                    continue
                bad += 1
                ck.violate('static/' + ck.prog.fns[k]['np'], 'uses the changeable static %s at %s: %s' % (s, loc(sp), g.chain(seen, k)), loc(sp))
        if not bad:
            ck.record('static', 'proved', 'no changeable static is used by the %d functions reached (%d calls)' % (len(seen), ncall))
    ck.oblige('effects', go, 'crate')


def loc(sp):
    return '%s:%s' % (sp[0], sp[1]) if sp else '?'


def p_safe(ck):
    def go():
        d = ck.prog.d
        n = 0
        for path, what, sp in d['unsafe']:
            n += 1
            ck.violate('unsafe/' + path, 'unsafe %s in %s at %s' % (what, path, loc(sp)), loc(sp))
        for f in d['fns']:
            if f.get('unsafe'):
                n += 1
                ck.violate('unsafe/' + f['path'], 'unsafe function %s' % f['path'], loc(f['span']))
        ck.analysed |= set(f['np'] for f in d['fns'])
        if not n:
            ck.record('unsafe', 'proved', 'no unsafe block, function, implementation or foreign item among %d bodies' % len(d['fns']))
    ck.oblige('safe', go, 'crate')
