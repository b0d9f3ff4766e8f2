"""The validator as a table of (condition -> recorded error), with short names for the things it looks at."""
from spec import *
from engine import mk_lin

ALLRANGE = ('Range{start:0, end:(len(DECL.deleted) + len(S:FIELD.index))}', 'Range{start:0, end:(len(DECL.deleted) + len(DECL.fields))}')
SETINS = ('HashSet::insert', 'BTreeSet::insert', 'HashMap::insert', 'BTreeMap::insert')
SETGET = ('get', 'HashSet::contains', 'BTreeSet::contains', 'HashMap::contains_key', 'BTreeMap::contains_key', 'HashSet::get', 'HashMap::get', 'BTreeMap::get')
HARMLESS = SETINS + SETGET + tuple(a + b for a in ('HashSet', 'BTreeSet', 'HashMap', 'BTreeMap') for b in ('::len', '::is_empty', '::new', '::iter', '::with_capacity'))


def member(t):
    """any(|x| x == k) over a collection as a question of membership"""
    if is_t(t, 'iter') and t[1] == 'any' and len(t) == 5 and len(t[3]) == 1 and is_t(t[3][0], 'lit'):
        (k, x), vs = t[3][0][1], t[3][0][2]
        e = ('elem', t[2], t[4])
        if k == 'b' and is_t(x, 'call') and x[1] == 'eq' and vs == frozenset([True]) and e in map(strip, x[2]):
            o = [y for y in map(strip, x[2]) if y != e]
        elif k == 'n' and is_t(x, 'lin') and x[2] == 0 and vs == ((0, 0),) and dict(x[1]).get(e) in (1, -1) and len(x[1]) == 2:
            o = [y for y, n in x[1] if y != e and n == -dict(x[1])[e]]
        else:
            return t
        if len(o) == 1 and not contains(o[0], lambda y: y == e):
            return ('call', 'HashSet::contains', (t[2], o[0]))
    return t


class Valid:
    def __init__(self, prog, rep, fn='validator::validate', extra=(), **kw):
        self.rep, self.prog = rep, prog
        self.c = c = Canon([
            (lambda t: is_t(t, 'elem') and is_t(t[1], 'f') and t[1][2] == 'declarations' and t[1][1] == ('f', t[1][1][1], '0') and is_t(t[1][1][1], 'val'), 'DECL'),
            (lambda t: is_t(t, 'elem') and is_t(t[1], 'f') and t[1][2] == 'fields' and c(t[1][1]) == 'DECL', 'FIELD'),
            (lambda t: is_t(t, 'f') and t[2] == '0' and is_t(t[1], 'val') and t[1][1] == ('param', 0), 'SCHEMA'),
            (lambda t: is_t(t, 'f') and t[2] == '1' and is_t(t[1], 'val') and t[1][1] == ('param', 0), 'PATH'),
            (lambda t: is_t(t, 'f') and t[2] == '2' and is_t(t[1], 'val') and t[1][1] == ('param', 0), 'TEXT'),
            (lambda t: is_t(t, 'key') and t[1] == ('param', 0), 'NS'),
        ])
        self.an, self.rets = analyze(rep, prog, fn, extra=extra, errty='-', **kw)
        self.events = self.an.events if self.an else []
        if self.an:
            self.counted()
        self.loops()
        self.sets = {}
        for e in self.events:
            if e['kind'] == 'call' and e['f'] in SETINS:
                b = base(e['rargs'][0])
                if is_t(b, 'new'):
                    s = self.sets.setdefault(b, {'keys': set(), 'guards': {}, 'loops': {}, 'sites': set()})
                    k = c(e['args'][1])
                    s['keys'].add(k)
                    s['guards'].setdefault(k, set())
                    s['guards'][k] |= {cj for cj in e['guard']}
                    s['loops'].setdefault(k, set()).add(self.where(e))
                    s['sites'].add(e['site'])
        # sets made by collecting
        for e in self.events:
            for cj in e['guard']:
                for a, v in cj:
                    t = a[1]
                    for x in walk(t):
                        if x[:1] and x[0] in ('call', 'callm') and x[1] in SETGET and len(x[2]) > 1:
                            b = x[2][0]
                            if is_t(b, 'iter') and b[1] == 'collect' and len(b[3]) == 1 and b not in self.sets and all(y == (b[3][0], ((),)) for z in b[5:] for y in z[1]):
                                k = b[3][0]
                                if (x[1] == 'get' or 'Map' in x[1]) and is_t(k, 'tuple'):
                                    k = k[1][0]
                                k = c(k)
                                self.sets[b] = {'keys': {k}, 'guards': {k: {frozenset()}}, 'loops': {k: set()}, 'sites': {e['site']}}
        # names of sets by what they hold
        for b, s in self.sets.items():
            s['name'] = 'S:' + '|'.join(sorted(s['keys']))
        self._wrap()
        self.loops()

    def loops(self):
        """loop -> canonical source (and that of the elements' own elements, where a loop goes through nested collections)"""
        self.src, self.inner = {}, {}
        for e in self.events:
            for t in list(e.get('args', ())) + [a[1] for cj in e['guard'] for a, v in cj]:
                if isinstance(t, tuple):
                    for x in walk(t):
                        if x[:1] in (('elem',), ('key',), ('val',)) and len(x) == 3 and isinstance(x[2], tuple) and len(x[2]) == 2 and x[2][1] == 'in':
                            self.inner.setdefault(x[2][0], self.c(x[1]))
        for e in self.events:
            for cj in e['guard']:
                for a, v in cj:
                    if a[0] == 'is' and is_t(a[1], 'next'):
                        self.src.setdefault(a[1][2], self.c(a[1][1]))

    def counted(self):
        """a loop that counts upwards one by one below a bound goes through a range"""
        bounds = {}
        for e in self.events:
            for cj in e['guard']:
                for a, v in cj:
                    if a[0] == 'n' and is_t(a[1], 'lin') and v[0][0] == 1 and len(v) == 1:
                        for x, n in a[1][1]:
                            if is_t(x, 'phi') and len(x) == 3 and n == -1 and x[1] in e['loops']:
                                d, k = dict(a[1][1]), a[1][2]
                                del d[x]
                                bounds.setdefault(x, set()).add((a, mk_lin(d, k)))
        swap, drop = {}, set()
        for x, bs in bounds.items():
            L, root = x[1:]
            starts = {strip(st.store.get(root)) for st in self.an.entries.get(L, ()) if st.store.get(root) is not None}
            steps = {strip(st.store.get(root)) for st in self.an.latches.get(L, ()) if st.store.get(root) is not None}
            if len(bs) == 1 and len(starts) == 1 and is_t(min(starts), 'const') and steps == {mk_lin({x: 1}, 1)}:
                a, end = next(iter(bs))
                if all(any(b == a for b, v in cj) for e in self.events for cj in e['guard'] if any(contains(b[1], lambda y: y == x) for b, v in cj)):
                    r = ('agg', 'std::ops::Range', 'Range', (('start', min(starts)), ('end', end)))
                    swap[x] = ('elem', r, L)
                    drop.add(a)
        if not swap:
            return

        def put(t):
            if t in swap:
                return swap[t]
            return tuple(put(y) if isinstance(y, tuple) else y for y in t)

        def lit(a, v):
            if a in drop:
                x = next(y for y, n in a[1][1] if y in swap)
                return ('is', ('next', swap[x][1], x[1])), frozenset(['Some'])
            return (put(a), v)
        for e in self.events:
            e['guard'] = frozenset(frozenset(lit(a, v) for a, v in cj) for cj in e['guard'])
            for k in ('args', 'rargs'):
                if e.get(k):
                    e[k] = put(tuple(e[k]))

    def where(self, e):
        """the collections gone through around an event"""
        out = []
        for L in e['loops']:
            out.append(self.src.get(L, '?'))
            while L in self.inner:
                out.append(self.inner[L])
                L = (L, 'in')
        return tuple(out)

    def _wrap(self):
        c = self.c
        orig = c._c

        def named(t):
            if is_t(t, 'iter') and t in self.sets:
                return self.sets[t]['name']
            if is_t(t, 'new') or is_t(t, 'mut'):
                b = base(t)
                if b in self.sets:
                    return self.sets[b]['name']
            return orig(t)
        c._c = named
        c.memo = {}

    def lit(self, a, v):
        """normalised literal: duplicates and membership independent of how they are asked"""
        c = self.c
        t = a[1]
        t = member(t)
        if t[0] in ('call', 'callm') and t[1] in SETINS + SETGET and len(t[2]) > 1:
            b = base(t[2][0])
            if b not in self.sets:
                b = t[2][0]
            if b in self.sets:
                k = c(t[2][1])
                if a[0] == 'b':
                    dup = v == frozenset([t[1] not in SETINS])
                elif a[0] == 'is':
                    dup = v == frozenset(['Some'])
                else:
                    return c.lit(a, v)
                return ('' if dup else '¬') + 'in(%s, %s)' % (k, self.sets[b]['name'])
            if a[0] == 'b' and t[1] in SETGET:
                return ('' if True in v else '¬') + 'in(%s, %s)' % (c(t[2][1]), c(t[2][0]))
        return c.lit(a, v)

    def conj(self, cj):
        return frozenset(self.lit(a, v) for a, v in cj if not (a[0] == 'is' and is_t(a[1], 'next')) and not self.errors_empty(a))

    def errors_empty(self, a):
        """tests of the error list itself"""
        t = a[1]
        if is_t(t, 'lin') or a[0] == 'n':
            return contains(t, lambda x: x[0] in ('call', 'len') and contains(x, lambda y: is_t(y, 'new') and y[1] == 'Vec')) and not contains(t, lambda x: is_t(x, 'f'))
        return t[0] in ('call', 'callm') and t[1] == 'Vec::is_empty'

    def dnf(self, g):
        return frozenset(self.conj(cj) for cj in dnf_simplify(frozenset(g)))

    def errors(self):
        """recorded errors grouped by condition: [(condition DNF, events)]"""
        by = {}
        for e in self.events:
            if e['kind'] == 'call' and e['f'] in ('Vec::push',) and contains(strip(e['args'][1]), lambda x: is_t(x, 'call') and x[1] == 'error::throw'):
                by.setdefault((e['site'], e['ret'][3][0] if is_t(e['ret'], 'callm') else None, e['loops'][-1:] and self.src.get(e['loops'][-1])), []).append(e)
        out = []
        for k, es in by.items():
            g = frozenset().union(*[e['guard'] for e in es])
            out.append((self.dnf(g), es))
        return out

    def scope(self, name, key, loops, new_loops):
        """a set that is created per new_loops and gets `key` on every iteration of loops"""
        ok = False
        for b, s in self.sets.items():
            if s['name'] != name or key not in s['keys'] or is_t(b, 'iter'):
                continue
            conds = self.dnf(s['guards'][key])
            ok = s['loops'][key] == {loops} and all(all(x.startswith('¬in(%s, %s)' % (key, name)) for x in cj) for cj in conds)
            self.rep.ob(ok, 'filled:' + name, 'not every %s is entered in the set that detects repetitions: loops %s, only if %s' % (key, sorted(s['loops'][key]), [sorted(x) for x in conds][:3]), min(s['sites']))
            made = {self.where(e) for e in self.events if e['kind'] == 'new' and e['obj'] == b}
            self.rep.ob(made == {new_loops}, 'scope:' + name, 'the set that detects a repeated %s is created per %s instead of per %s' % (key, sorted(made), new_loops), min(s['sites']))
            for e in self.events:
                if e['kind'] == 'call' and e['f'] not in HARMLESS and e['f'].split('::')[0] in ('HashSet', 'BTreeSet', 'HashMap', 'BTreeMap') and e['args'] and base(e['rargs'][0]) == b:
                    self.rep.fail('tampered:' + name, 'the set that detects a repeated %s is changed by %s' % (key, e['f']), e['site'])
        return ok
