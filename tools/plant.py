"""Writes /verif/seeded/<id>/ from tools/plants/<id>.py and confirms it in a scratch copy of /repo.
A plant file defines: prop, file, edits [(old, new)], needs, breaks, main (Rust source of the demonstration)."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/plantwt'
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right, 1 when it is not
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} RUSTC_WRAPPER=
scratch=$(mktemp -d) || exit 2
trap 'rm -r -- "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cp "$repo/Cargo.lock" "$scratch/Cargo.lock"
cat > "$scratch/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
geom3d = { path = "$repo" }
[profile.dev]
debug = 0
[workspace]
END
cd "$scratch" || exit 2
export CARGO_TARGET_DIR=${DEMO_TARGET:-$scratch/target}
cargo build -q --offline > build.log 2>&1 || { cat build.log; exit 2; }
timeout 100 "$CARGO_TARGET_DIR/debug/demo"
'''


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(os.path.join(V, 'tools', 'plants')) if f.endswith('.py'))
    sh('mkdir -p %s && rsync -a --delete /repo/ %s/ || (rm -rf /tmp/plantwt; cp -a /repo %s)' % (WT, WT, WT))
    env = dict(os.environ, DEMO_TARGET='/tmp/planttarget')
    for i in ids:
        ns = {}
        exec(open(os.path.join(V, 'tools', 'plants', i + '.py')).read(), ns)
        sh('git checkout -- .', WT)
        edits = ns['edits']
        for f, old, new in edits:
            p = os.path.join(WT, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit('%s: %r occurs %d times in %s' % (i, old, s.count(old), f))
            open(p, 'w').write(s.replace(old, new))
        d = os.path.join(V, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        diff = sh('git diff', WT).stdout
        removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'main.rs'), 'w').write(ns['main'].lstrip())
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        t = sh('cargo test --workspace --offline 2>&1 | grep -E "^test result|FAILED|failed|error" ', WT, dict(env, CARGO_TARGET_DIR='/tmp/planttest'))
        tests = 'failed' not in t.stdout.replace('0 failed', '') and 'error:' not in t.stdout and 'error[' not in t.stdout and 'test result' in t.stdout
        bad = sh('bash %s/demo.sh' % d, WT, env)
        sh('git checkout -- .', WT)
        good = sh('bash %s/demo.sh' % d, WT, env)
        print(i, ns['prop'], 'tests', 'pass' if tests else 'FAIL', 'demo clean', good.returncode, 'patched', bad.returncode,
              'OK' if tests and good.returncode == 0 and bad.returncode not in (0, 2) else '!!!!', flush=True)
        if not tests:
            print(t.stdout[-800:])
        if good.returncode or bad.returncode in (0, 2):
            print(good.stdout[-800:], bad.stdout[-800:])


main()
