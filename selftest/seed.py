#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies and reports which checks catch them.
usage: seed.py verify [ID...]   build, stable tests, demo on both trees, checks
       seed.py checks [ID...]   checks only
make() writes a seeded/<id> from a list of edits."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = VERIF + '/seeded'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(id, prop, edits, needs, breaks, demo, files=()):
    d = '/tmp/seedmake-' + id
    shutil.rmtree(d, ignore_errors=True)
    sh('git -C /repo worktree prune; git clone -q /repo ' + d)
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old[:80])
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git -C %s diff' % d).stdout
    shutil.rmtree(d)
    o = SEEDED + '/' + id
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(diff)
    open(o + '/demo.sh', 'w').write(demo)
    os.chmod(o + '/demo.sh', 0o755)
    for n, t in files:
        open(o + '/' + n, 'w').write(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)


def copy(d, patch=None):
    sh('mkdir -p %s && cp -a /repo %s/repo' % (d, d))
    if patch:
        r = sh('git -C %s/repo apply %s' % (d, patch))
        if r.returncode:
            return r.stderr
    return ''


def build_test(d, tests=True):
    r = sh('mkdir -p %s/vp && cp /opt/vp/*.sh /opt/vp/*.py /opt/vp/*.json %s/vp/ && sed -i "s#/repo#%s/repo#g; s#/opt/vp#%s/vp#g; s#/tmp/omnifile-rust#/tmp/omnifile-rust#" %s/vp/*.sh %s/vp/*.py' % (d, d, d, d, d, d))
    b = sh('bash %s/vp/build.sh' % d)
    if b.returncode:
        return 'build fails: ' + b.stderr[-1500:]
    if not tests:
        return ''
    t = sh('bash %s/vp/test.sh %s/out.json' % (d, d))
    base = json.load(open('/opt/vp/BASELINE.json'))
    out = json.load(open(d + '/out.json'))
    stable = ids(base)
    failed = sorted(x for x in stable if x not in passed(out))
    return 'tests fail: %s' % failed[:5] if failed else ''


def ids(base):
    for k in ('stable', 'passed', 'passing', 'tests'):
        if k in base:
            v = base[k]
            return set(v) if isinstance(v, list) else {x for x in v if v[x] in (True, 'pass', 'passed', 'PASS')}
    raise SystemExit('unknown baseline format: %s' % list(base)[:5])


passed = ids


def demo(d, o):
    t = d + '/demo'
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(o, t, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    return sh('cd %s/repo && bash %s/demo.sh' % (d, t), timeout=300)


def checks(d, only=None):
    env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_TIER='quick', VERIF_SCRATCH=d + '/.verif')
    fired = {}
    r = subprocess.run([sys.executable, VERIF + '/lib/build.py'], env=env, capture_output=True, text=True)
    if r.returncode:
        return {'build': r.stderr[-300:]}
    props = [c['property'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']]

    def run(p):
        return subprocess.run([sys.executable, VERIF + '/check.py', p], env=env, capture_output=True, text=True)
    with ThreadPoolExecutor(8) as ex:
        for p, r in zip(props, ex.map(run, props)):
            if r.returncode:
                fired[p] = r.stdout[:400]
    return fired


def one(id, full):
    o = SEEDED + '/' + id
    d = '/tmp/seedwork-' + id
    shutil.rmtree(d, ignore_errors=True)
    try:
        e = copy(d, o + '/patch.diff')
        if e:
            return id, 'patch: ' + e, {}
        if full:
            e = build_test(d)
            if e:
                return id, e, {}
            r = demo(d, o)
            if r.returncode == 0:
                return id, 'demo does not fail with the patch: ' + (r.stdout + r.stderr)[-600:], {}
            bad = r.stdout + r.stderr
            sh('git -C %s/repo checkout -- .' % d)
            e = build_test(d, False)
            r = demo(d, o)
            if e or r.returncode:
                return id, 'demo fails without the patch: ' + e + (r.stdout + r.stderr)[-600:], {}
            sh('git -C %s/repo apply %s/patch.diff' % (d, o))
        f = checks(d)
        return id, '', f
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    full = sys.argv[1] == 'verify'
    want = sys.argv[2:] or sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(1) as ex:
        for id, e, f in ex.map(lambda i: one(i, full), want):
            prop = json.load(open('%s/%s/meta.json' % (SEEDED, id)))['property']
            print('%-28s %s %s' % (id, 'BAD ' + e[:900] if e else ('CAUGHT' if prop in f else 'MISSED'), prop), sorted(f), flush=True)
            if not e and prop in f:
                print('      ', f[prop].strip().splitlines()[0][:300])


if __name__ == '__main__':
    main()
