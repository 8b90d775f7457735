"""Build the MIR dumper and dump the type-checked program of /repo's working tree."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('GEOM_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')


class BuildError(Exception):
    pass


def _hash_tree(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for root, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(root, f)
                    h.update(os.path.relpath(q, p).encode())
                    h.update(open(q, 'rb').read())
        elif os.path.exists(p):
            h.update(os.path.basename(p).encode())
            h.update(open(p, 'rb').read())
    return h.hexdigest()


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise BuildError(' '.join(cmd))
    return r.stdout


def _env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def driver():
    src = os.path.join(VERIF, 'driver')
    h = _hash_tree([os.path.join(src, 'src'), os.path.join(src, 'Cargo.toml'), os.path.join(src, 'Cargo.lock')])
    out = os.path.join(BUILD, 'drv', 'release', 'geomdump')
    stamp = os.path.join(BUILD, 'drv', 'stamp')
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out, h
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    e = _env()
    e['RUSTFLAGS'] = '-C link-arg=-Wl,-rpath,%s/lib' % sysroot
    _run(['cargo', '+nightly', 'build', '--release', '--offline', '--target-dir', os.path.join(BUILD, 'drv')], cwd=src, env=e)
    with open(stamp, 'w') as f:
        f.write(h)
    return out, h


def dump(verbose=False):
    """path of the JSON dump of the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv, dh = driver()
        lock = os.path.join(REPO, 'Cargo.lock')
        if not os.path.exists(lock):
            lock = os.path.join(HERE, 'Cargo.lock.fallback')
        h = hashlib.sha256((dh + _hash_tree([os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'), lock])).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, 'dumps', h + '.json')
        if os.path.exists(out):
            return out
        work = os.path.join(BUILD, 'work')
        td = os.path.join(BUILD, 'td')
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(work, 'src'))
        for d in ('build.rs',):
            if os.path.exists(os.path.join(REPO, d)):
                shutil.copy(os.path.join(REPO, d), work)
        shutil.copy(os.path.join(REPO, 'Cargo.toml'), work)
        shutil.copy(lock, os.path.join(work, 'Cargo.lock'))
        # the copy has to be newer than whatever was compiled before
        for root, _, fs in os.walk(os.path.join(work, 'src')):
            for f in fs:
                os.utime(os.path.join(root, f))
        os.makedirs(os.path.dirname(out), exist_ok=True)
        for old in os.listdir(os.path.dirname(out)):
            os.remove(os.path.join(os.path.dirname(out), old))
        tmp = out + '.tmp'
        e = _env()
        e.update(GEOM_DUMP=tmp, GEOM_CRATE='geom3d', RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=td)
        cmd = ['cargo', '+nightly', 'check', '--lib', '--offline']
        _run(cmd, cwd=work, env=e)
        if not os.path.exists(tmp):
            shutil.rmtree(td, ignore_errors=True)
            _run(cmd, cwd=work, env=e)
        if not os.path.exists(tmp):
            raise BuildError('no dump was produced')
        os.rename(tmp, out)
        shutil.rmtree(work, ignore_errors=True)
        return out


def load():
    return json.load(open(dump()))


if __name__ == '__main__':
    print(dump())
