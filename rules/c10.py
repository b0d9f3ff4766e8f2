"""Cyclic type definitions are rejected, acyclic ones are not."""
from valid import *
import c08

EXPLANATION = ('Typestate analysis of the depth-first search for cycles: it is started for every declaration of every file; it visits the '
               'declaration of every named type of every field, through arrays of any depth, resolved in the namespace the reference names; '
               'a declaration is marked as being visited before its fields are followed and until they all have been, it is only marked as '
               'finished (which stops later visits) once all its fields have been followed or a cycle through it has been reported, and an '
               'error is recorded exactly when a declaration that is being visited is met again.')
FLOORS = {'obligations': 15, 'functions': 3}


def subst(t, args):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'param' and isinstance(t[1], int):
            return args[t[1]] if t[1] < len(args) else t
        return tuple(subst(x, args) for x in t)
    return t


class Search:
    """normalised view of the recursive function"""

    def __init__(self, rep, prog, fn, extra=()):
        self.c = Canon()
        self.rep, self.fn = rep, fn
        self.an, self.rets = analyze(rep, prog, fn, extra=extra, errty='-')
        self.events = self.an.events if self.an else []

    def lits(self, cj):
        out = set()
        for a, v in cj:
            t = a[1]
            if a[0] == 'is' and is_t(t, 'next'):
                continue
            if t[0] in ('call', 'callm') and t[1] in SETINS + SETGET and len(t[2]) > 1 and is_t(base(t[2][0]), 'param'):
                b = base(t[2][0])
                pos = (v == frozenset([t[1] not in SETINS])) if a[0] == 'b' else v == frozenset(['Some'])
                out.add((pos, b, strip(t[2][1])))
            else:
                out.add((None, a[0], self.c.lit(a, v)))
        return out

    def setops(self):
        for i, e in enumerate(self.events):
            if e['kind'] == 'call' and e['f'].split('::')[0] in ('HashSet', 'BTreeSet', 'HashMap', 'BTreeMap') and e['args']:
                b = base(e['rargs'][0])
                if is_t(b, 'param'):
                    yield i, e, b, (strip(e['args'][1]) if len(e['args']) > 1 else None)


def check(prog, rep):
    v = Valid(prog, rep)
    if v.an is None:
        return
    loops = (c08.FILES, c08.DECLS)
    starts = []
    for f in sorted({e['f'] for e in v.events if e['kind'] == 'call' and e.get('local') and prog.has(e['f']) and prog.recursive(e['f'])}):
        w = Valid(prog, rep, extra=(f,))
        at = [e for e in w.events if e['kind'] == 'call' and e['f'] == f and w.where(e) == loops]
        if at:
            starts += at
            search = w
    rep.ob(len({e['f'] for e in starts}) == 1, 'anchor:search', 'there is no single recursive search started for every declaration of every file: %s' % sorted({e['f'] for e in starts}))
    if len({e['f'] for e in starts}) != 1:
        return
    fn = starts[0]['f']
    v = search
    s = Search(rep, prog, fn)
    if s.an is None:
        return
    # the error, and the set of declarations being visited
    errors = [e for e in s.events if e['kind'] == 'call' and e['f'] == 'Vec::push' and contains(strip(e['args'][1]), lambda x: is_t(x, 'call') and x[1] == 'error::throw')]
    errs_at = {base(e['rargs'][0]) for e in errors}
    grey, keys = set(), set()
    for e in errors:
        for cj in e['guard']:
            g = {(b, k) for pos, b, k in s.lits(cj) if pos is True}
            rep.ob(len(g) == 1, 'error-guard', 'the search records an error although no declaration that is being visited was met: only required %s' % s.c.show(e['guard'])[:300], e['site'])
            grey |= {b for b, _ in g}
            keys |= {k for _, k in g}
    if not rep.ob(len(grey) == 1 and len(keys) == 1 and len(errs_at) == 1, 'anchor:visiting', 'the search has no single set of declarations being visited that leads to the error'):
        return
    G, Q = next(iter(grey)), next(iter(keys))
    black = set()
    # every way to return

    def finished(cj):
        for src in exhausted(cj):
            if is_t(src, 'f') and src[2] == 'fields':
                d = base_get(src[1])
                if d is not None and d[1] == Q:
                    return d[0]
        return None

    tables = set()
    for st, rv in s.rets:
        for cj in st.guard:
            L = s.lits(cj)
            t = finished(cj)
            if t is not None:
                tables.add(t)
                continue
            if (True, G, Q) in L:
                rep.ob(any(any(x2 <= L for x2 in [s.lits(g)]) for e in errors for g in e['guard']), 'cycle-silent', 'a declaration that is met while it is being visited is not reported', '')
                continue
            x = {b for pos, b, k in L if pos is True and k == Q}
            ok = len(x) >= 1
            if ok:
                black |= x
            rep.ob(ok, 'return-early', 'the search returns without following every field of the declaration, if %s' % s.c.show([cj])[:300], '')
    black -= tables
    rep.ob(len(tables) == 1, 'anchor:fields', 'the search does not follow the fields of the declaration looked up under the visited name')
    # the sets
    ins_grey, released = [], []
    for i, e, b, k in s.setops():
        name = e['f'].split('::')[1]
        if b in black:
            if name in ('contains', 'contains_key', 'get', 'len', 'is_empty', 'iter'):
                continue
            ok = name == 'insert' and k == Q and all(finished(cj) is not None or (True, G, Q) in s.lits(cj) for cj in e['guard'])
            rep.ob(ok, 'finished-early', 'a declaration is marked as finished before its fields have been followed (%s)' % name, e['site'])
            if ok:
                released.append(e)
        elif b == G:
            if name in ('contains', 'contains_key', 'get', 'len', 'is_empty', 'iter'):
                continue
            if name == 'insert' and k == Q:
                ins_grey.append((i, e))
                continue
            ok = name in ('remove', 'take') and k == Q and all(finished(cj) is not None or (True, G, Q) in s.lits(cj) for cj in e['guard'])
            rep.ob(ok, 'unvisit-early', 'a declaration stops being marked as visited before its fields have been followed (%s)' % name, e['site'])
            if ok and all(finished(cj) is not None for cj in e['guard']):
                released.append(e)
    rep.ob(bool(ins_grey), 'visiting-mark', 'no declaration is marked as being visited')
    # errors only for declarations that are being visited: the mark is released, or the declaration finished, when its fields have been followed
    for st, rv in s.rets:
        for cj in st.guard:
            if finished(cj) is not None:
                ok = any(any(g <= cj | frozenset() or s.lits(g) <= s.lits(cj) for g in e['guard']) for e in released)
                rep.ob(ok, 'mark-stays', 'a declaration whose fields have been followed can stay marked as being visited: meeting it again reports a cycle that does not exist')
    # error exactly if grey and not black
    for e in errors:
        for cj in e['guard']:
            rest = [x for x in s.lits(cj) if x != (True, G, Q) and not (x[0] is False and x[1] in black | {G} and x[2] == Q) and not implied(x, s)]
            rep.ob(not rest, 'error-weakened', 'a cycle is only reported if %s' % rest, e['site'])
    # recursion
    T = next(iter(tables)) if len(tables) == 1 else None
    recursion(rep, prog, s, fn, Q, G, black, T, errs_at, ins_grey)
    # the start
    for e in starts:
        rep.ob(v.c(subst(Q, e['args'])) == '(NS, DECL.name)', 'start-key', 'the search is not started from the declaration itself but from %s' % v.c(subst(Q, e['args']))[:200], e['site'])
        g = v.dnf(e['guard'])
        rep.ob(g == {frozenset()}, 'start-guard', 'the search is only started if %s' % [sorted(x) for x in g][:3], e['site'])
        if is_t(T, 'param'):
            rep.ob(v.c(e['rargs'][T[1]]) == 'S:(NS, DECL.name)' or v.c(e['args'][T[1]]) == 'S:(NS, DECL.name)', 'start-table', 'the search does not use the table of all declarations but %s' % v.c(e['args'][T[1]])[:100], e['site'])
        eb = next(iter(errs_at))
        if is_t(eb, 'param'):
            made = base(e['rargs'][eb[1]])
            rep.ob(any(x['kind'] == 'call' and x['f'] == 'Vec::push' and base(x['rargs'][0]) == made for x in v.events), 'start-errors', 'cycles are recorded in a different list of errors', e['site'])
    sets = {base(e['rargs'][b[1]]) for e in starts for b in black | {G} if is_t(b, 'param')}
    started = min(i for i, e in enumerate(v.events) if e in starts)
    for i, e in enumerate(v.events):
        if e['kind'] == 'call' and e['f'].split('::')[0] in ('HashSet', 'BTreeSet', 'HashMap', 'BTreeMap') and e['args'] and base(e['rargs'][0]) in sets and e not in starts:
            name = e['f'].split('::')[1]
            inside = v.c(e['args'][1]) == '(NS, DECL.name)' if len(e['args']) > 1 else name in ('len', 'is_empty')
            rep.ob(inside or name == 'new', 'tampered', 'the marks of the search are changed outside of it by %s' % e['f'], e['site'])
    everything(rep, prog, v, fn)


def base_get(t):
    """(table, key) if the term is (part of) what a table holds under a key"""
    while isinstance(t, tuple):
        if t[0] in ('call', 'callm') and t[1] in ('get', 'HashMap::get', 'BTreeMap::get', 'HashMap::index', 'BTreeMap::index') and len(t[2]) > 1:
            return base(t[2][0]), strip(t[2][1])
        if t[0] in ('f', 'vf', 'val', 'down', 'ref', 'deref', 'payload', 'some', 'var') and len(t) > 1:
            t = t[1]
            continue
        return None
    return None


def implied(x, s):
    """a lookup that cannot fail once references have been resolved"""
    if x[0] is None and x[1] == 'is' and x[2].endswith(' is Some') and ('get(' in x[2]):
        return True
    return x[0] is True and is_t(x[1], 'param')


def recursion(rep, prog, s, fn, Q, G, black, T, errs_at, ins_grey):
    c = s.c
    calls = [(i, e) for i, e in enumerate(s.events) if e['kind'] == 'call' and e['f'] == fn]
    decl = None
    for i, e in enumerate(s.events):
        for cj in e['guard']:
            for a, w in cj:
                if a[0] == 'is' and is_t(a[1], 'next') and is_t(a[1][1], 'f') and a[1][1][2] == 'fields':
                    decl = a[1][1][1]
    if decl is None:
        rep.fail('anchor:loop', 'the search has no loop over the fields of a declaration')
        return
    D = c(decl)
    FT = 'elem(%s.fields).type.variant' % D
    schema = D[:-2] + '.0' if D.endswith('.1') else None
    ns = c(ns_of(Q))
    imp = 'get(%s.imports, %s.Custom.Some)' % (schema, FT)
    want = {
        'local': (frozenset([FT + ' is Custom', FT + '.Custom is None']), '(%s, %s.Custom.1)' % (ns, FT)),
        'imported': (frozenset([FT + ' is Custom', FT + '.Custom is Some']), '(%s.Some.namespace.Some, %s.Custom.1)' % (imp, FT)),
    }

    def passed(e, what):
        for b in sorted({G, T} | black | errs_at, key=str):
            if is_t(b, 'param'):
                a = e['rargs'][b[1]] if b[1] < len(e['rargs']) else None
                rep.ob(base(a) == b, 'context:%s' % what, 'the search goes on with different marks, table or errors', e['site'])

    def cond(cj):
        out = set()
        for x in s.lits(cj):
            if implied(x, s) or (x[0] is False and x[1] in black | {G} and x[2] == Q):
                continue
            out.add(x[2] if x[0] is None else '%sin(%s, %s)' % ('' if x[0] else '¬', c(x[2]), c(x[1])))
        return frozenset(out)

    seen = set()
    first = None
    for i, e in calls:
        q = c(subst(Q, e['args']))
        passed(e, fn)
        for cj in e['guard']:
            k = cond(cj)
            hit = [n for n, (g, wq) in want.items() if k <= g | {FT + ' is Custom'} and q == wq]
            if hit:
                seen |= set(hit)
            first = first or e['site']
            before = [x for j, x in ins_grey if j < i and all(s.lits(g) - {(False, G, Q)} <= s.lits(cj) for g in list(x['guard'])[:1])]
            rep.ob(bool(before), 'visiting-late', 'the fields of a declaration are followed before it is marked as being visited', e['site'])
    for n in want:
        rep.ob(n in seen, 'follow:' + n, 'the search does not follow every field whose type is %s declaration: expected a visit of %s if %s' % (
            {'local': 'a local', 'imported': 'an imported'}[n], want[n][1], sorted(want[n][0])), first or '')
    # arrays
    arr = False
    for i, e in enumerate(s.events):
        if e['kind'] == 'call' and e.get('local') and any(c(a) == FT + '.Array' for a in e['args']) and all(cond(cj) == {FT + ' is Array'} for cj in e['guard']):
            t = Search(rep, prog, e['f'], (fn,))
            if t.an is None:
                continue
            ti = [c(a) for a in e['args']].index(FT + '.Array')
            s2 = Search(rep, prog, fn, (e['f'],))
            outer = [x for x in s2.events if x['kind'] == 'call' and x['f'] == e['f'] and c(x['args'][ti]) == FT[:-len('.variant')]]
            # the same function handles the field type itself, in the same context
            for x in outer:
                rep.ob([c(a) for k, a in enumerate(x['args']) if k != ti] == [c(a) for k, a in enumerate(e['args']) if k != ti], 'array-context',
                       'the element type of an array is followed in a different context', e['site'])
            passed_ok = False
            for r in t.events:
                if r['kind'] == 'call' and r['f'] == e['f']:
                    got = [t.c(a) for a in r['args']]
                    exp = ['arg%d' % k if k != ti else 'arg%d.variant.Array' % k for k in range(len(got))]
                    ok = got == exp and t.c.dnf(dnf_simplify(r['guard'])) == {frozenset(['arg%d.variant is Array' % ti])}
                    rep.ob(ok, 'array-nested', 'arrays inside arrays are not followed in the same way: %s if %s' % (got, t.c.show(r['guard'])[:200]), r['site'])
                    passed_ok |= ok
            arr |= bool(outer) and passed_ok
    rep.ob(arr, 'follow:array', 'the search does not follow the element types of arrays', first or '')


def ns_of(Q):
    """the namespace part of the key"""
    q = strip(Q)
    for x in walk_terms(q):
        if is_t(x, 'param'):
            return x
    return q


def walk_terms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from walk_terms(x)


def everything(rep, prog, v, fn):
    """the loops that start the search visit everything"""
    L = {e['loops'] for e in v.events if e['kind'] == 'call' and e['f'] == fn and len(v.where(e)) == 2}
    outer = {x[0] for x in L}
    c = Canon()
    n = [0]

    def latch(an, st, l):
        if l in outer and l not in v.inner:
            for cj in st.guard:
                n[0] += 1
                rep.ob('val(arg0).0.declarations' in {c(x) for x in exhausted(cj)}, 'declarations-partial', 'the search is not started from every declaration of a file')
    an = Analyzer(prog, opaque=opaque(extra={fn}, minus={'validator::validate'}), latch_hook=latch, errty='-')
    rets = analyze_with(rep, an, 'validator::validate')
    rep.ob(n[0] > 0 or outer and outer <= set(v.inner), 'anchor:start-loop', 'no loop starts the search')
    for st, rv in rets or []:
        for cj in st.guard:
            done = any(a[0] == 'is' and is_t(a[1], 'next') and a[1][2] in outer and w == frozenset(['None']) for a, w in cj)
            skipped = any(v.errors_empty(a) for a, w in cj)
            rep.ob(done or skipped, 'files-partial', 'the validator can finish without searching every file for cycles')
