"""python3 tools/mutate.py WORKER NWORKERS COUNT SEED : plant one-token changes, run the checks that analyse the changed function.
Works in /tmp/mut/wN (copy of /repo) and /tmp/mut/vN (copy of /verif); appends to /tmp/mut/log.N.jsonl."""
import glob, json, os, random, re, shutil, subprocess, sys, time

wk, nw, count, seed = map(int, sys.argv[1:5])
only = sys.argv[5] if len(sys.argv) > 5 else ''
W, V = '/tmp/mut/w%d' % wk, '/tmp/mut/v%d' % wk
subprocess.run('rm -rf %s %s; cp -a /repo %s; cp -a /verif %s' % (W, V, W, V), shell=True, check=True)
head = subprocess.run(['git', '-C', W, 'rev-parse', 'HEAD'], stdout=subprocess.PIPE, text=True).stdout.strip()
ev = {}
for f in glob.glob('/verif/evidence/*.json'):
    e = json.load(open(f))
    ev[e['property']] = e['coverage']['functions_analysed']

SLOW = ('P02', 'P08', 'P11', 'P21', 'P29', 'P04', 'P27')

RULES = [
    (r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
    (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['', ' - 2']), (r' \+ ', [' - ']), (r' - ', [' + ']),
    (r' \* ', [' / ']), (r' / ', [' * ']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']), (r'\b2\.0', ['1.0', '3.0']), (r'\b0\.5\b', ['0.25']),
    (r'\b0\.0\b', ['1.0']), (r'\b1\.0\b', ['0.0', '2.0']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.cos\(', ['.sin(']), (r'\.sin\(', ['.cos(']),
    (r'\.x\b', ['.y']), (r'\.y\b', ['.x', '.z']), (r'\.z\b', ['.x']), (r'\.0\b', ['.1']), (r'\.1\b', ['.0']), (r'\.first\(\)', ['.last()']), (r'\.last\(\)', ['.first()']),
    (r'\bstart\b', ['end']), (r'\bend\b', ['start']), (r'\bif !', ['if ']), (r'\bif (?!let)', ['if !']), (r'\.rev\(\)', ['']), (r'\.\.=', ['..']), (r'(?<=\w)\.\.(?=\w)', ['..=']),
    (r'\bu\b', ['v']), (r'\bv\b', ['u']), (r'\bi\b', ['(i + 1)', 'j']), (r'\bj\b', ['i']), (r'\[0\]', ['[1]']), (r'\[1\]', ['[0]']), (r'-(?=\w)', ['']), (r' -= ', [' += ']), (r' \+= ', [' -= ']),
    (r'\brows\(\)', ['cols()']), (r'\bcols\(\)', ['rows()']), (r'degree_u', ['degree_v']), (r'degree_v', ['degree_u']), (r'knots_u', ['knots_v']), (r'knots_v', ['knots_u']),
    (r'\.abs\(\)', ['']), (r'\.normalize\(\)', ['']), (r'\?;', [';']), (r'break', ['continue']), (r'\.skip\(1\)', ['']), (r'\bperp_dot\b', ['dot']), (r'\bcross\(', ['dot(']),
    (r'\b1\b(?!\.)', ['2']), (r'\b2\b(?!\.)', ['3']), (r'\b3\b(?!\.)', ['2']), (r'\.clamp\(', ['.max(']), (r'\ba\b', ['b']), (r'\bb\b', ['a']), (r'^\s+[\w.\[\]]+(\.\w+\(.*\)| [+*/-]?= .*);$', ['']),
    (r'\brange\.0', ['range.1']), (r'as u32', ['as u8 as u32']), (r'reverse\(\);', ['len();']), (r'(\w+), (\w+)\)', [r'\2, \1)']), (r'(\w+), (\w+)\]', [r'\2, \1]']),
]


def sites():
    out = []
    for f in sorted(glob.glob(W + '/src/**/*.rs', recursive=True)):
        fn, test, depth = None, False, 0
        lines = open(f).read().split('\n')
        for k, l in enumerate(lines):
            if re.match(r'\s*#\[(cfg\()?test', l):
                test = True
            m = re.search(r'\bfn (\w+)', l)
            if m:
                fn = m.group(1)
                if not test:
                    pass
            if not test and fn and l.strip() and not l.strip().startswith(('//', '#', 'use ', 'pub fn', 'fn ', 'impl', '}')):
                code = l.split('//')[0]
                for r, reps in RULES:
                    for m in re.finditer(r, code):
                        for rep in reps:
                            out.append((f, k, m.span(), m.expand(rep), fn))
            if test and l == '}':
                test = False
    return out


rng = random.Random(seed)
S = [s for s in sites() if only in s[0]]
rng.shuffle(S)
S = S[wk::nw]
log = open('/tmp/mut/log.%d.jsonl' % wk, 'a')
done = 0
env = dict(os.environ, GEOM_REPO=W, SA_JOBS=str(max(2, 8 // nw)), CARGO_NET_OFFLINE='true')
for f, k, (a, b), rep, fn in S:
    if done >= count:
        break
    src = open(f).read()
    lines = src.split('\n')
    new = lines[k][:a] + rep + lines[k][b:]
    if new == lines[k]:
        continue
    old = lines[k]
    lines[k] = new
    mod = os.path.relpath(f, W + '/src')[:-3].replace('/mod', '').replace('/', '::')
    if 'with_capacity' in old:
        continue
    props = [p for p, fs in sorted(ev.items(), key=lambda e: (e[0] in SLOW, e[0])) if p not in ('P01', 'P28')
             if any(mod in x and re.search(r'::%s(::\{|$)' % fn, x) for x in fs)]
    rec = {'file': os.path.relpath(f, W), 'line': k + 1, 'fn': fn, 'old': old.strip(), 'new': new.strip(), 'props': props}
    try:
        open(f, 'w').write('\n'.join(lines))
        c = subprocess.run('cargo check --lib --offline --target-dir /tmp/mut/td%d' % wk, shell=True, cwd=W, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if c.returncode:
            continue
        try:
            c = subprocess.run('cargo test --offline --target-dir /tmp/mut/td%d 2>&1' % wk, shell=True, cwd=W, env=env, stdout=subprocess.PIPE, text=True, timeout=100, errors='replace')
            bad = 'FAILED' in c.stdout or 'panicked' in c.stdout or c.returncode
        except subprocess.TimeoutExpired:
            bad = True
        if bad:
            continue
        done += 1
        rec['results'] = {}
        for p in props:
            t = time.time()
            try:
                c = subprocess.run(['python3', V + '/sa/check.py', p, '--tier', 'quick'], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                o = c.stdout.strip().split('\n')
                rec['results'][p] = [c.returncode, o[0][:100], round(time.time() - t)]
                if c.returncode == 1:
                    break
            except subprocess.TimeoutExpired:
                rec['results'][p] = [124, 'timeout', 900]
        rec['caught'] = any(v[0] == 1 for v in rec['results'].values())
        log.write(json.dumps(rec) + '\n')
        log.flush()
    finally:
        open(f, 'w').write(src)
        subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'])
