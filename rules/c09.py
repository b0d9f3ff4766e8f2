"""Every type reference is resolved, at any nesting depth, in the file it names."""
from valid import *
import c08

EXPLANATION = ('Guard-table analysis of the validator and its recursion over types: for every field of every declaration the type is visited; '
               'a named type leads to an error exactly if its import is unknown or the table of declarations has no such name in the namespace '
               'of that import (or of the file itself); the table holds every declaration of every loaded file and nothing else; arrays recurse '
               'into their element type with everything else unchanged.')
FLOORS = {'obligations': 12, 'functions': 2}
V = 'FIELD.type.variant'
IMPORT = 'get(SCHEMA.imports, %s.Custom.Some)' % V
LOCAL = '(NS, %s.Custom.1)' % V
REMOTE = '(%s.Some.namespace.Some, %s.Custom.1)' % (IMPORT, V)
TABLE = '(NS, DECL.name)'


def norm(cj):
    """drop what a lookup that succeeded or an unwrap implies"""
    return frozenset(x for x in cj if x not in (IMPORT + ' is Some', IMPORT + '.Some.namespace is Some', V + ' is Custom'))


def conditions(v):
    t = 'S:' + TABLE
    return [frozenset([frozenset([V + '.Custom is Some', '¬in(%s.Custom.Some, SCHEMA.imports)' % V])]),
            frozenset([frozenset([V + '.Custom is Some', IMPORT + ' is None'])]),
            frozenset([frozenset([V + '.Custom is None', '¬in(%s, %s)' % (LOCAL, t)])]),
            frozenset([frozenset([V + '.Custom is Some', '¬in(%s, %s)' % (REMOTE, t)])])]


def check(prog, rep):
    v = Valid(prog, rep)
    if v.an is None:
        return
    t = 'S:' + TABLE
    found = {}
    sites = {}
    for g, es in v.errors():
        for cj in g:
            n = norm(cj)
            if any(V in x for x in n):
                found.setdefault(n, set()).update({v.where(e) for e in es})
                sites[n] = es[0]['site']
    loops = (c08.FILES, c08.DECLS, c08.FIELDS)
    imp = [frozenset([V + '.Custom is Some', IMPORT + ' is None']), frozenset([V + '.Custom is Some', '¬in(%s.Custom.Some, SCHEMA.imports)' % V])]
    want = {
        'unknown-import': imp,
        'unknown-local-type': [frozenset([V + '.Custom is None', '¬in(%s, %s)' % (LOCAL, t)])],
        'unknown-imported-type': [frozenset([V + '.Custom is Some', '¬in(%s, %s)' % (REMOTE, t)])],
    }
    for name, alts in want.items():
        ok = any(loops in found.get(a, ()) for a in alts)
        rep.ob(ok, name, 'no error is recorded exactly when %s; recorded for field types: %s' % (' and '.join(sorted(alts[0])), [sorted(x) for x in found][:4]),
               next(iter(sites.values()), ''))
    # the table of declarations
    tables = [b for b, s in v.sets.items() if s['name'] == t]
    used = set()
    for e in v.events:
        for cj in e['guard']:
            for a, w in cj:
                x = a[1]
                if x[0] in ('call', 'callm') and x[1] in SETGET and len(x[2]) > 1 and v.c(x[2][1]) in (LOCAL, REMOTE):
                    used.add(base(x[2][0]))
    rep.ob(len(used) == 1 and used <= set(tables), 'anchor:table', 'type names are not looked up in one table of all declarations')
    for b in used & set(tables):
        s = v.sets[b]
        if is_t(b, 'iter'):  # collected: complete if it goes through all files
            rep.ob(b[2] == ('param', 0) and contains(b[3], lambda x: is_t(x, 'key') and x[1:] == (b[2], b[4])), 'table-partial', 'the table of declarations is not filled with every declaration of every file', min(s['sites']))
            rep.ob(s['keys'] == {TABLE}, 'table-extra', 'the table of declarations holds %s' % sorted(s['keys']), min(s['sites']))
            continue
        conds = v.dnf(s['guards'][TABLE])
        rep.ob(conds == {frozenset()} and s['loops'][TABLE] == {(c08.FILES, c08.DECLS)}, 'table-partial', 'the table of declarations is not filled with every '
               'declaration of every file: loops %s, only if %s' % (sorted(s['loops'][TABLE]), [sorted(x) for x in conds][:3]), min(s['sites']))
        rep.ob(s['keys'] == {TABLE}, 'table-extra', 'the table of declarations holds %s' % sorted(s['keys']), min(s['sites']))
        made = {v.where(e) for e in v.events if e['kind'] == 'new' and e['obj'] == b}
        rep.ob(made == {()}, 'table-scope', 'the table of declarations is created inside a loop', min(s['sites']))
        for e in v.events:
            if e['kind'] == 'call' and e['f'] not in HARMLESS and e['args'] and base(e['rargs'][0]) == b and e['f'].split('::')[0] in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
                rep.fail('table-tampered', 'the table of declarations is changed by %s' % e['f'], e['site'])
    c08.complete(prog, rep, v)
    recursion(prog, rep, v)


def recursion(prog, rep, v):
    """arrays: the element type is checked by the same rules"""
    rec = [e for e in v.events if e['kind'] == 'call' and e.get('local') and any(v.c(a) == V + '.Array' for a in e['args']) and
           v.where(e) == (c08.FILES, c08.DECLS, c08.FIELDS)]
    ok = False
    for e in rec:
        g = v.dnf(e['guard'])
        if g != {frozenset([V + ' is Array'])}:
            continue
        callee = e['f']
        if not prog.has(callee):
            continue
        an, rets = analyze(rep, prog, callee, errty='-')
        if an is None:
            continue
        args = [v.c(a) for a in e['args']]
        ti = args.index(V + '.Array')
        c = Canon()
        for r in an.events:
            if r['kind'] == 'call' and r['f'] == callee:
                got = [c(a) for a in r['args']]
                exp = ['arg%d' % i if i != ti else 'arg%d.variant.Array' % i for i in range(len(got))]
                rep.ob(got == exp, 'recursion-context', 'the element type of an array is checked in a different context: %s' % got, r['site'])
                rep.ob(c.dnf(dnf_simplify(r['guard'])) == {frozenset(['arg%d.variant is Array' % ti])}, 'recursion-guard', 'the element type of an array is only checked if %s' % c.show(r['guard'])[:300], r['site'])
                ok = True
    rep.ob(ok, 'arrays', 'the element type of an array is not checked')
