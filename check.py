#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property on /repo's current tree."""
import importlib
import json
import os
import sys
import time
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':   # the same order of sets, so the same answer, in every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.setrecursionlimit(20000)


def known():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    for line in open(p) if os.path.exists(p) else ():
        if line.startswith('open: '):
            head, what = line[6:].strip().split(' :: ', 1)
            prop, key = head.split(' key=', 1)
            out[(prop.split('=', 1)[1], key)] = what
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    import build
    from engine import Prog
    from spec import Report
    path = build.dump()
    prog = Prog(path)
    rep = Report(prop)
    mod = importlib.import_module(prop.lower())
    try:
        mod.check(prog, rep)
    except Exception:
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        rep.fail('analysis:exception', 'the analysis cannot follow the code: ' + tb.strip().splitlines()[-1])
    floors = getattr(mod, 'FLOORS', {})
    for k, v in floors.items():
        n = {'obligations': rep.obligations, 'functions': len(rep.functions), 'events': rep.events}[k]
        if n < v:
            rep.fail('floor:' + k, 'only %d %s analysed, expected at least %d' % (n, k, v))
    kn = known()
    viol = []
    for key, msg in sorted(rep.findings.items()):
        if (prop, key) in kn:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, kn[(prop, key)]))
        else:
            viol.append((key, msg))
    evd = os.environ.get('VERIF_SCRATCH') or os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': mod.EXPLANATION,
            'obligations': rep.obligations, 'discharged': rep.discharged,
            'functions_analysed': sorted(rep.functions), 'events': rep.events, 'blocks': rep.blocks,
            'sites': len(rep.sites), 'samples': rep.samples, 'notes': rep.notes,
            'mir': os.path.basename(path),
        },
        'wall_s': round(time.time() - t0, 3),
        'violations': len(viol),
    }
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if viol:
        rp = os.path.join(evd, prop + '.violation.txt')
        with open(rp, 'w') as f:
            for key, msg in viol:
                f.write('%s\n    %s\n' % (key, msg))
        for key, msg in viol[:12]:
            print('  %s: %s' % (key, msg[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('%s holds: %d obligations over %d functions' % (prop, rep.obligations, len(rep.functions)))
    return 0


if __name__ == '__main__':
    sys.exit(main())
