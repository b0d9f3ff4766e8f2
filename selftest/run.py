#!/usr/bin/env python3
"""Self-test of the rules on scratch copies of /repo: each case is an edit plus the checks that must fire (mutant) or stay
quiet (refactoring).  usage: run.py [-k substring] [-c ID,ID] ; cases live in cases.py"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from cases import CASES
import cases_gen
import cases_more

# a check runs on a case that touches one of the files its property is anchored in (-a: every check)
ANCH = {}
for line in open(VERIF + '/properties.jsonl'):
    j = json.loads(line)
    ANCH[j['id']] = j['anchors']['files']


def main():
    args = sys.argv[1:]
    k = args[args.index('-k') + 1] if '-k' in args else ''
    only = args[args.index('-c') + 1].split(',') if '-c' in args else None
    allids = sorted(f[:-3].upper() for f in os.listdir(VERIF + '/rules') if f[0] == 'c' and f[1:3].isdigit())
    bad = 0
    scratch = '/tmp/selftest-scratch-%d' % os.getpid()
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    cases = [c for c in CASES if k in c['name'] and (not only or set(only) & set(c.get('fires', allids)) or not c.get('fires'))]

    def one(ci):
        i, case = ci
        d = '%s/%d' % (scratch, i)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('target', '.git', 'node_modules'))
        try:
            for f, old, new in case['edits']:
                p = os.path.join(d, f)
                s = open(p).read()
                if s.count(old) < 1:
                    return case, None, 'edit does not apply: %s' % old[:80]
                s = s.replace(old, new, case.get('count', 1))
                open(p, 'w').write(s)
            env = dict(os.environ, VERIF_REPO=d, VERIF_TIER='quick', VERIF_SCRATCH=d + '/.verif')
            r = subprocess.run([sys.executable, VERIF + '/lib/build.py'], env=env, capture_output=True, text=True)
            if r.returncode:
                return case, None, r.stderr[-1500:]
            fired = {}
            ids = only or [p for p in allids if p in case.get('fires', ()) or '-a' in args or any(f in ANCH.get(p, [f]) for f, o, n in case['edits'])]
            for p in ids:
                r = subprocess.run([sys.executable, VERIF + '/check.py', p], env=env, capture_output=True, text=True)
                if r.returncode:
                    fired[p] = r.stdout[:600] + r.stderr[-600:]
            return case, fired, ''
        finally:
            shutil.rmtree(d)

    with ThreadPoolExecutor(7) as ex:
        for case, fired, err in ex.map(one, enumerate(cases)):
            if fired is None:
                print('BROKEN CASE', case['name'], err)
                bad += 1
                continue
            want = set(case.get('fires', ()))
            if only:
                want &= set(only)
            missing = want - set(fired)
            extra = set(fired) - want - set(case.get('may', ()))
            flag = 'ok  '
            if missing or (extra and not want and not case.get('fires')):
                flag = 'BAD '
                bad += 1
            print(flag, case['name'], 'fired', sorted(fired), ('missing %s' % sorted(missing)) if missing else '')
            if flag == 'BAD ' and not case.get('fires'):
                for p, o in fired.items():
                    print('     ', p, o[:900])
    shutil.rmtree(scratch, ignore_errors=True)
    print('bad:', bad)
    return bad

if __name__ == '__main__':
    sys.exit(1 if main() else 0)
