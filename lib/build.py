"""Builds the MIR driver when needed and dumps the current /repo tree's MIR (cached by content hash)."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_SCRATCH') or os.path.join(VERIF, '.build')
TOOLCHAIN = 'nightly'


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        out += [os.path.join(d, f) for f in fs]
    for f in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def env():
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTFLAGS', None)
    e.pop('RUSTC_WRAPPER', None)
    root = subprocess.run(['rustc', '--print', 'sysroot'], env=e, capture_output=True, text=True, check=True).stdout.strip()
    e['LD_LIBRARY_PATH'] = root + '/lib'
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        sys.stderr.write(r.stdout[-4000:] + r.stderr[-8000:])
        raise SystemExit(2)
    return r


def driver(e):
    src = os.path.join(VERIF, 'driver', 'main.rs')
    os.makedirs(os.path.join(VERIF, '.build'), exist_ok=True)
    out = os.path.join(VERIF, '.build', 'mirdump-' + digest([src]))
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        run(['rustc', '-O', '--edition', '2021', src, '-o', tmp], env=e)
        os.rename(tmp, out)
    return out


def dump():
    """-> path of the MIR dump of the current working tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        e = env()
        drv = driver(e)
        key = digest(sources() + [os.path.join(VERIF, 'driver', 'main.rs')])
        out = os.path.join(BUILD, 'mir-%s.json' % key)
        if os.path.exists(out):
            return out
        for f in sorted((f for f in os.listdir(BUILD) if f.startswith('mir-')),
                        key=lambda f: os.path.getmtime(os.path.join(BUILD, f)))[:-6]:
            os.unlink(os.path.join(BUILD, f))
        target = os.path.join(BUILD, 'target')
        fp = os.path.join(target, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('typical-'):
                    shutil.rmtree(os.path.join(fp, d))
        tmp = out + '.tmp'
        if os.path.exists(tmp):
            os.unlink(tmp)
        e2 = dict(e, CARGO_TARGET_DIR=target, MIRDUMP_OUT=tmp, RUSTC_WORKSPACE_WRAPPER=drv)
        run(['cargo', 'check', '--offline', '--locked', '--bin', 'typical'], cwd=REPO, env=e2)
        if not os.path.exists(tmp):
            sys.stderr.write('the MIR dump was not written\n')
            raise SystemExit(2)
        os.rename(tmp, out)
        return out


if __name__ == '__main__':
    print(dump())
