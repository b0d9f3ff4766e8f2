"""What a function writes: its writes as rows (from loop head, condition, pieces of text, to loop head), read off the dataflow facts,
and the text the rows give for an abstract input whose every attribute the conditions ask for is known."""
from spec import *
from engine import to_lin

OUT = ('mon', 'out')
MUTATORS = {'BTreeMap::insert', 'Vec::push', 'BTreeSet::insert', 'Vec::insert', 'Vec::extend_from_slice', 'BTreeMap::remove'}


class Unknown(Exception):
    pass


def impossible(a, t, v):
    """no input meets the condition: a name in some case is compared with words it cannot be"""
    if is_t(t, 'next') or not any(x[:1] and x[0] in ('param', 'elem', 'key', 'val', 'phi', 'mut', 'pos', 'next') for x in walk(t)):
        return True  # going through something that is always empty; the same on every run
    named = any(is_t(x, 'call') and x[1].split('::')[-1] in ('snake_case', 'camel_case', 'pascal_case') for x in walk(t))
    if (a, v) not in (('b', frozenset([True])), ('is', frozenset(['Ok'])), ('is', frozenset(['Some']))):
        return named and a in ('b', 'is')
    words, names = [], []
    for x in walk(t):
        if is_t(x, 'cname') and isinstance(x[2], tuple):
            words += [w for w in x[2] if isinstance(w, str)]
        elif is_t(x, 'const') and isinstance(x[1], str):
            words.append(x[1])
        elif is_t(x, 'call') and x[1].split('::')[-1] in ('snake_case', 'camel_case', 'pascal_case'):
            names.append(x)
    if len(set(names)) != 1 or not words:
        return False
    case, of = names[0][1].split('::')[-1], names[0][2][0]
    suffix = ''
    if is_t(of, 'call') and of[1].endswith('join'):
        ss = [x[1] for x in walk(of[2][1]) if is_t(x, 'const')]
        if len(ss) != 1:  # one of them
            ss = ['Atlas', 'In', 'Out']
            return not any(w.endswith('_' + x.lower() if case == 'snake_case' else x) for w in words for x in ss if w not in ss)
        suffix = ss[0]
        words = [w for w in words if w != suffix]
    if case == 'snake_case':
        return not any(w == w.lower() and w.endswith('_' + suffix.lower() if suffix else '') for w in words)
    return not any(w[:1].isupper() == (case == 'pascal_case') and w.endswith(suffix) and len(w) > len(suffix) for w in words)


class Emission:
    def atom(self, a):
        if a not in self.number:
            self.number[a] = len(self.atoms)
            self.atoms.append(a)
        return self.number[a]

    def __init__(self, prog, rep, fn, opq, dst=None, writer=None, mutator=None):
        """dst: index of the parameter everything has to be written to"""
        self.prog, self.rep, self.fn, self.c, self.ok, self.bad = prog, rep, fn, Canon(), True, {}
        if not prog.has(fn):
            rep.fail('anchor:' + fn, 'the function %s does not exist' % fn)
            self.ok = False
            return
        self.muts, self.dsts = {}, set()

        def monitor(e, st):
            if e['kind'] == 'write':
                self.dsts.add(base(e['dst']))
                if dst is not None and strip(base(e['dst'])) != ('param', dst):
                    self.bad.setdefault('dst:' + e['site'], 'something is written to %s' % self.c(e['dst']))
                old = st.store.get(OUT, ('out',))
                an.write(st, (OUT, ()), old + tuple(e['pieces']) if old[0] == 'out' else old)
            elif e['kind'] == 'call' and not e['local'] and e['f'] in MUTATORS and is_t(e['ret'], 'callm'):
                old = st.store.get(OUT, ('out',))
                new = ('mut', base(e['rargs'][0]), ('c',) + e['ret'][3])
                an.write(st, (OUT, ()), old + (('m', e['f'], e['rargs'], new),) if old[0] == 'out' else old)
            elif e['kind'] == 'call' and e['local'] and mutator and is_t(e['ret'], 'callm') and mutator(e['f']) is not None:
                old = st.store.get(OUT, ('out',))
                new = ('mut', base(e['rargs'][mutator(e['f'])]), ('c',) + e['ret'][3])
                an.write(st, (OUT, ()), old + (('m', e['f'], e['rargs'], new),) if old[0] == 'out' else old)

        def head(an, st, L):
            if L[-1] == 'hof' and OUT not in an.mods.get(L, {}):
                an.quiet.add(L)
                return
            an.quiet.discard(L)
            for root in an.mods.get(L, {}):
                v = st.store.get(root)
                if is_t(v, 'mut') and v[2] == ('loop', L):
                    self.muts.setdefault(v, root)
            st.store[OUT] = ('out',)
            st.store[('mon', 'part', L)] = part = ('part', an.partition(st, L, bools=True))
            st.store[('mon', 'at')] = node(st, L, part)

        def node(st, L, part):
            return ('at', L) + tuple(st.store.get(('mon', 'part', x), ('?',)) for x in an.nest[L]) + (part,)
        self.an = an = Analyzer(prog, opaque=opq, errty='-', monitors=monitor, head_hook=head, inline=None, maxst=2000)
        an.writer = writer
        try:
            rets = an.analyze(fn, init=lambda st: st.store.update({OUT: ('out',), ('mon', 'at'): ('at', None)}))
        except (Fail, RecursionError) as x:
            rep.fail('analysis:' + fn, 'the analysis of %s cannot follow the code: %r' % (fn, x))
            self.ok = False
            return
        rep.used(an)
        self.rows, self.phis, self.atoms, self.number = {}, set(), [], {}
        todo = [(st, ('entry' if k == 0 else 'latch', L, node(st, L, ('part', an.partition(st, L, bools=True))))) for L in an.entries if not an.quiet & {L, *an.nest[L]} for k, s in enumerate((an.entries[L], [y for x in an.latches.get(L, []) for y in an.settle(x.fork(), L)])) for st in s]
        for st, rv in rets:
            st.store[('mon', 'rv')] = rv
            todo.append((st, ('ret', None, None)))
        for st, d in todo:
            at = st.store.get(('mon', 'at'), ('at', None))
            out = st.store.get(OUT, ('out',))
            if out[0] != 'out' or at[0] != 'at':
                self.bad.setdefault('lost', 'what is written is lost in a loop')
                continue
            for cj in st.guard:
                some = {a[1][1] for a, v in cj if a[0] == 'is' and is_t(a[1], 'next') and v == frozenset(['Some'])}
                if any(a[0] == 'n' and is_t(a[1], 'call') and a[1][1] == 'len' and a[1][2][0] in some and all(hi < 1 for lo, hi in v) for a, v in cj):
                    continue  # an element of something empty
                row = (sorted(((self.atom(a), v) for a, v in cj), key=lambda l: not is_t(self.atoms[l[0]][1], 'next')), out[1:], d, st)
                self.rows.setdefault(at if at[1] else None, []).append(row)
                kept = [st.store.get(('mon', 'rv'), ())] + [v for k, v in st.store.items() if k[0] in ('ext', 'heap')] if d[0] == 'ret' else []
                for x in (y for z in [a for a, v in cj] + list(out[1:]) + kept for y in walk(z)):
                    if is_t(x, 'phi') and len(x) == 3:
                        self.phis.add((x[1], x[2]))
                    elif is_t(x, 'mut') and x in self.muts:
                        self.phis.add((x[2][1], self.muts[x]))
        grew = True
        while grew:  # what the values at the loop heads are made of
            grew = False
            for L, root in list(self.phis):
                for at in self.rows:
                    for cj, out, d, st in self.rows[at]:
                        if d[1] == L:
                            for x in walk(st.store.get(root, ())):
                                if is_t(x, 'phi') and len(x) == 3 and (x[1], x[2]) not in self.phis:
                                    self.phis.add((x[1], x[2]))
                                    grew = True
        for at in self.rows:  # a loop within a call is entered by each state on its own: what does not matter in it is left out
            if at is None or not any(L[-1] == 'hof' for L in (at[1], *an.nest[at[1]])):
                continue
            groups = {}
            for lits, out, d, st in self.rows[at]:
                key = (out, d, tuple(st.store.get(r) for L, r in sorted(self.phis, key=repr)), tuple(sorted(((k, v) for k, v in st.store.items() if k[0] in ('ext', 'heap')), key=repr)))
                groups.setdefault(key, []).append((lits, st))
            self.rows[at] = []
            for (out, d, *_), g in groups.items():
                dnf = frozenset(frozenset((self.atoms[i], v) for i, v in lits) for lits, st in g)
                if len(dnf) > 1:
                    dnf = dnf_simplify(dnf)
                for cj in dnf:
                    self.rows[at].append((sorted(((self.atom(a), v) for a, v in cj), key=lambda l: not is_t(self.atoms[l[0]][1], 'next')), out, d, g[0][1]))
        self.srcs = {a[1][2]: a[1][1] for a in self.atoms if is_t(a[1], 'next')}
        self.first, self.again = {}, {}
        for rows in self.rows.values():
            for lits, out, d, st in rows:
                if d[0] == 'entry':
                    self.first.setdefault(d[1], set()).add(d[2][-1])
                elif d[0] == 'latch':
                    self.again.setdefault(d[1], set()).add(d[2][-1])
        self.used, self.seen = set(), {}
        for k, v in self.bad.items():
            rep.fail(k, v)
            self.ok = False


    def feasible(self, node, lits):
        """not the first element and the first element at once"""
        if node is None:
            return True
        for M, part in zip(self.an.nest[node[1]] + (node[1],), node[2:]):
            if part not in self.first.get(M, ()):
                for i, v in lits:
                    a, t = self.atoms[i]
                    if a == 'n' and all(hi < 1 for lo, hi in v) and (t == ('pos', M) or is_t(t, 'call') and t[1] == 'len' and self.c(t[2][0]) == self.c(self.srcs.get(M, ('const', None)))):
                        return False
        L = node[1]
        if node[-1] not in self.again.get(L, ()):  # the first time round: no element means nothing to go through
            some = {v == frozenset(['Some']) for i, v in lits for a, t in [self.atoms[i]] if a == 'is' and is_t(t, 'next') and t[2] == L}
            if some == {False}:
                for i, v in lits:
                    a, t = self.atoms[i]
                    if a == 'n' and is_t(t, 'call') and t[1] == 'len' and self.c(t[2][0]) == self.c(self.srcs.get(L, ('const', None))) and all(lo >= 1 for lo, hi in v):
                        return False
        return True

    def unseen(self):
        """conditions no input met: [(atom, values)]"""
        out = {}
        for node, row in self.unused():
            for i, v in row[0]:
                a, t = self.atoms[i]
                if not any(any(lo <= x <= hi for lo, hi in v) if a == 'n' else x in v for x in self.seen.get(i, ())) and not impossible(a, t, v):
                    out.setdefault((i, repr(v)), (self.atoms[i], v))
        return list(out.values())

    def unused(self):
        return [(node, r) for node, rows in self.rows.items() for i, r in enumerate(rows) if (node, i) not in self.used and self.feasible(node, r[0])]


class Eval:
    """one run over the rows for an abstract input"""

    def __init__(self, em, args, world, wants=False, changes=None):
        """wants: the value returned is of interest; changes: the parameter whose value afterwards is"""
        self.em, self.args, self.w, self.wants, self.changes = em, args, world, wants, changes
        self.written, self.where = {}, {}
        self.after = args.get(changes)
        self.pos, self.elem, self.last, self.phi, self.heap, self.nth, self.pending = {}, {}, {}, {}, {}, {}, {}

    def text(self):
        em = self.em
        node, at, out, steps = None, None, [], 0
        while True:
            steps += 1
            if steps > 4000:
                raise Unknown('no end')
            hits, self.memo = {}, {}
            for i, (cj, pieces, d, st) in enumerate(em.rows.get(node, ())):
                self.pending = {p[3]: p for p in pieces if p[0] == 'm'}
                if self.ok(cj, at):
                    hits.setdefault((pieces, d, tuple(st.store.get(r) for L, r in sorted(em.phis, key=repr) if L == d[1]) + ((st.store.get(('mon', 'rv')),) if d[0] == 'ret' and self.wants else ())
                                    + (self.changed(st) if d[0] == 'ret' and self.changes is not None else ())), []).append((i, cj, st))
            self.pending = {}
            if len(hits) > 1:  # the same text in another way
                txt = {}
                for k, v in hits.items():
                    txt.setdefault((self.pieces(k[0], at, v[0][1]), k[1], tuple(repr(self.safe(x, at)) for x in k[2])), []).extend(v)
                if len(txt) > 1:
                    raise Unknown('what is written is not determined by the schema (%s)' % ' / '.join(sorted({str(k[0])[:40] for k in txt})))
            if not hits and at in em.an.dropping:  # left out
                rows = [r for r in em.rows.get(node, ()) if any(is_t(em.atoms[i][1], 'next') and em.atoms[i][1][2] == at and v == frozenset(['Some']) for i, v in r[0])]
                if rows:
                    self.advance(rows[0][0], at, False)
                    if self.last[at] == 'Some':
                        continue
            if not hits:
                raise Unknown('no way to continue from %s' % (at,))
            (pieces, d, vals), rows = next(iter(hits.items()))
            for r in (x for v in hits.values() for x in v):
                em.used.add((node, r[0]))
            self.advance(rows[0][1], at)
            out.append(self.pieces(pieces, at, None))
            new, where = {}, {}
            for p, v in zip([p for p in sorted(em.phis, key=repr) if p[0] == d[1]], vals):
                try:
                    if is_t(v, 'ref') and self.changes is not None:
                        where[p] = self.resolve(v)
                    else:
                        new[p] = self.ev(v)
                except (Unknown, TypeError):
                    self.phi.pop(p, None)
                    self.where.pop(p, None)
            if self.changes is not None and d[0] != 'ret':
                for path, v in [(self.resolve(place), self.ev(v)) for place, v in self.places(rows[0][2])]:
                    self.put(path, v)
                for path in where.values():
                    self.put(path, self.get(path))
            self.phi.update(new)
            self.where.update(where)
            if d[0] == 'ret':
                if self.wants:
                    v = vals[-1]
                    texts = {x for x in walk(v) if is_t(x, 'mut') and is_t(base(x), 'new') and base(x)[1] == 'String'}
                    if texts:  # the text written so far
                        if len(texts) != 1 or self.em.dsts != {base(x) for x in texts}:
                            raise Unknown('where everything is written')
                        self.written = {x: ''.join(out) for x in texts}
                    self.rv = self.ev(v)
                if self.changes is not None:
                    if not (vals[-2][0] == 'phi' and vals[-2][2:] == (('ext', self.changes),)):
                        self.after = self.ev(vals[-2])
                    for place, v in vals[-1][1]:
                        self.put(self.resolve(place), self.ev(v))
                return ''.join(out)
            if d[0] == 'entry':
                self.pos[d[1]] = self.nth[d[1]] = -1
                self.last.pop(d[1], None)
            at, node = d[1], d[2]

    def changed(self, st):
        """the parameter, and the changes of places inside of it"""
        return (st.store.get(('ext', self.changes), ('param', self.changes)), ('places', self.places(st)))

    def places(self, st):
        p = ('param', self.changes)
        return tuple((k[1], v) for k, v in st.store.items() if k[0] == 'heap' and any(x == p or is_t(x, 'phi') and x[1:] in self.where for x in walk(k[1])))

    def put(self, path, v):
        """what is at the place becomes v"""
        def at(x, path):
            if not path:
                return v
            s = path[0]
            if s[0] == 'f':
                if not isinstance(x, dict) or s[1] not in x:
                    raise Unknown('a change of a place')
                return {**x, s[1]: at(x[s[1]], path[1:])}
            if not isinstance(x, dict) or '__map' not in x:
                raise Unknown('a change of a place')
            new = at(self.look(x, s), path[1:])
            return {'__map': sorted([(a, b) for a, b in x['__map'] if not self.w.same(a, s[1])] + [(s[1], new)], key=lambda kv: self.w.order(kv[0]))}
        self.after = at(self.after, path)

    def look(self, x, s):
        if s[0] == 'f':
            if not isinstance(x, dict) or s[1] not in x:
                raise Unknown('a place')
            return x[s[1]]
        vs = [b for a, b in x['__map'] if self.w.same(a, s[1])] + list(s[2:])
        if not vs:
            raise Unknown('a place that does not exist')
        return vs[0]

    def get(self, path):
        x = self.after
        for s in path:
            x = self.look(x, s)
        return x

    def resolve(self, t):
        """the way from the parameter to the place"""
        if t == ('param', self.changes):
            return ()
        if t[0] == 'phi' and t[1:] in self.where:
            return self.where[t[1:]]
        if t[0] == 'phi' and len(t) == 3 and t[2] == ('ext', self.changes):
            return ()
        if t[0] == 'mut':
            return self.resolve(t[1])
        if t[0] == 'f':
            return self.resolve(t[1]) + (('f', t[2]),)
        if t[0] == 'vf' and t[2:] == ('Some', '0') and t[1][0] in ('call', 'callm') and t[1][1] == 'get':
            return self.resolve(t[1][2][0]) + (('k', self.ev(t[1][2][1])),)
        if self.entry(t):
            return self.resolve(t[2][0][2][0]) + (('k', self.ev(t[2][0][2][1]), self.ev(t[2][1])),)
        if t[0] == 'ref' and all(x[0] == 'f' for x in t[2]):
            if t[1] == ('ext', self.changes):
                return t[2]
            if t[1][0] == 'heap':
                return self.resolve(t[1][1]) + t[2]
        raise Unknown('a change of ' + self.em.c(t))

    def entry(self, t):
        return is_t(t, 'call') and t[1] == 'Entry::or_insert' and t[2][0][0] in ('call', 'callm') and t[2][0][1].endswith('BTreeMap::entry')

    def safe(self, t, at):
        try:
            return self.ev(t) if t is not None else None
        except Unknown:
            return t

    def peek(self, L, src):
        items = self.items(src)
        i = self.pos.get(L, -1) + 1
        return items[i] if i < len(items) else None, i < len(items), i

    def ok(self, cj, at):
        saved = None
        src = self.taken(cj, at)
        unknown = None
        if src is not None:
            saved = (dict(self.elem), dict(self.pos), dict(self.last), dict(self.nth))
            try:
                x, some, i = self.peek(at, src)
                self.last[at] = 'Some' if some else 'None'
                if some:
                    self.bind(at, src, x, i)
                    self.nth[at] = self.nth.get(at, -1) + 1
            except Unknown as u:
                unknown = u
        try:
            # a condition that is refuted settles it, whatever else is not known
            for i, v in cj:
                x = self.memo.get(i, self)
                if unknown is not None and is_t(self.em.atoms[i][1], 'next'):
                    continue
                if x is self:
                    try:
                        x = self.value(self.em.atoms[i])
                    except Unknown as u:
                        x = u
                    self.memo[i] = x
                    if not isinstance(x, Unknown):
                        self.em.seen.setdefault(i, set()).add(x)
                if isinstance(x, Unknown):
                    unknown = x
                elif not (x in v if self.em.atoms[i][0] != 'n' else any(lo <= x <= hi for lo, hi in v)):
                    return False
            if unknown:
                raise unknown
            return True
        finally:
            if saved:
                self.elem, self.pos, self.last, self.nth = saved

    def taken(self, cj, at):
        """what the row takes its next element from"""
        if at is not None:
            for i, v in cj:
                t = self.em.atoms[i][1]
                if not is_t(t, 'next'):
                    return None
                if t[2] == at:
                    return t[1]

    def advance(self, cj, at, counts=True):
        src = self.taken(cj, at)
        if src is not None:
            x, some, i = self.peek(at, src)
            self.last[at] = 'Some' if some else 'None'
            if some:
                self.bind(at, src, x, i)
                self.nth[at] = self.nth.get(at, -1) + counts

    def bind(self, L, src, x, i):
        """the element an iterator is at, and those of the iterators it is made of"""
        self.elem[L], self.pos[L] = x, i
        if is_t(src, 'of') and src[1] == 'Iterator::zip':
            self.bind((L, 'z0'), src[2], x[0], i)
            self.bind((L, 'z1'), src[3], x[1], i)

    def lit(self, a, v):
        x = self.value(a)
        return any(lo <= x <= hi for lo, hi in v) if a[0] == 'n' else x in v

    def value(self, a):
        if a[0] == 'is':
            if is_t(a[1], 'next'):
                L = a[1][2]
                if L[0] == 'k':
                    return 'Some' if L[1] < len(self.items(a[1][1])) else 'None'
                if L not in self.last:
                    # a loop that has not begun (or an iteration taken apart)
                    raise Unknown(self.em.c(a[1]))
                return self.last[L]
            return self.variant(self.ev(a[1]))
        if a[0] == 'b':
            return bool(self.ev(a[1]))
        if a[0] == 'n':
            x = self.ev(a[1])
            if isinstance(x, bool) or not isinstance(x, int):
                raise Unknown(self.em.c(a[1]))
            return x
        raise Unknown(str(a[0]))

    def variant(self, x):
        if isinstance(x, tuple) and x and x[0] == 'enum':
            return x[1]
        raise Unknown('variant of %r' % (x,))

    def items(self, src):
        x = self.ev(src)
        if isinstance(x, dict) and '__map' in x:
            return x['__map']
        if is_t(src, 'call') and src[1] == 'map_iter' and isinstance(x, list):
            return x
        if isinstance(x, dict) and set(x) == {'start', 'end'}:
            if not all(isinstance(y, int) for y in x.values()):
                raise Unknown('the range ' + self.em.c(src))
            return list(range(x['start'], x['end']))
        if isinstance(x, (list, tuple)) and not (isinstance(x, tuple) and x and x[0] == 'enum'):
            return list(x)
        raise Unknown('the elements of ' + self.em.c(src))

    def pieces(self, ps, at, cj):
        if cj is not None:  # the pieces belong to the element this row takes
            saved = (dict(self.elem), dict(self.pos), dict(self.last), dict(self.nth))
            self.advance(cj, at)
            try:
                return self.pieces(ps, at, None)
            finally:
                self.elem, self.pos, self.last, self.nth = saved
        out = []
        for p in ps:
            if p[0] == 's':
                out.append(p[1])
            elif p[0] == 'a':
                if p[1] not in ('display', 'str'):
                    raise Unknown('written as ' + p[1])
                out.append(self.w.show(self.ev(p[2])))
            elif p[0] == 'c':
                out.append(self.w.write(p[1], [self.arg(x) for x in p[2]]))
            elif p[0] == 'm':
                self.heap[p[3]] = self.mutate(p[1], [self.ev(x) for x in p[2]])
            else:
                raise Unknown('written: %r' % (p,))
        return ''.join(out)

    def part(self, t):
        """a part of what an iterator goes through: as a whole, or its current element"""
        op, x = t[1].split('::')[-1], t[2]
        inner = [y for y in walk(x) if y[:1] and y[0] in ('elem', 'key', 'val', 'pos')]
        n = self.ev(t[3]) if len(t) > 3 and t[3] is not None and op in ('skip', 'take', 'step_by') else None
        if inner and not any(is_t(y, 'of') for y in walk(x)) or inner and any(y[0] != 'pos' for y in inner):
            if any(y[0] in ('pos', 'nth') for y in walk(x) if y[:1]):
                raise Unknown('the position in a part')
            if op in ('skip', 'take', 'rev', 'step_by'):
                return self.ev(x)
            raise Unknown(self.em.c(t))
        if op == 'zip':
            return list(zip(self.items(x), self.items(t[3])))
        xs = self.items(x)
        if op == 'rev':
            return xs[::-1]
        if op == 'skip':
            return xs[n:]
        if op == 'take':
            return xs[:n]
        if op == 'step_by' and n:
            return xs[::n]
        raise Unknown(self.em.c(t))

    def case(self, t, other=None):
        if t[0] != 'cases':
            raise Unknown('which elements are left out')
        for r, dnf in t[1]:
            if any(all(self.lit(a, v) for a, v in cj) for cj in dnf):
                return r if r == ('stop',) else self.ev(r)
        if other is not None:
            return other
        raise Unknown('no case')

    def arg(self, t):
        """an argument of a function that writes; what cannot be known must not matter there"""
        try:
            return self.ev(t)
        except Unknown as x:
            return ('?', x)

    def mutate(self, f, a):
        x = a[0]
        if f == 'BTreeMap::insert' and isinstance(x, dict) and '__map' in x and len(a) == 3:
            return {'__map': sorted([(k, v) for k, v in x['__map'] if k != a[1]] + [(a[1], a[2])], key=lambda kv: self.w.order(kv[0]))}
        if f == 'BTreeMap::remove' and isinstance(x, dict) and '__map' in x:
            return {'__map': [(k, v) for k, v in x['__map'] if not self.w.same(k, a[1])]}
        if f == 'Vec::push' and isinstance(x, list):
            return x + [a[1]]
        if f == 'Vec::extend_from_slice' and isinstance(x, list) and isinstance(a[1], list):
            return x + a[1]
        return self.w.effect(f, a)

    def ev(self, t):
        k = t[0]
        if k == 'const':
            return t[1]
        if k == 'param':
            if t[1] in self.args:
                x = self.args[t[1]]
                if isinstance(x, tuple) and x[:1] == ('?',):
                    raise x[1]
                return x
            raise Unknown(self.em.c(t))
        if k == 'mut':
            if t in self.pending:
                return self.mutate(self.pending[t][1], [self.ev(x) for x in self.pending[t][2]])
            if t in self.heap:
                return self.heap[t]
            if t in self.written:
                return self.written[t]
            if t in self.em.muts and (t[2][1], self.em.muts[t]) in self.phi:
                return self.phi[(t[2][1], self.em.muts[t])]
            return self.ev(t[1])
        if k == 'f':
            x = self.ev(t[1])
            if isinstance(x, dict) and t[2] in x:
                return x[t[2]]
            if isinstance(x, tuple) and x[:1] != ('enum',) and str(t[2]).isdigit() and int(t[2]) < len(x):
                return x[int(t[2])]
            raise Unknown(self.em.c(t))
        if k == 'vf':
            x = self.ev(t[1])
            if isinstance(x, tuple) and x[0] == 'enum' and x[1] == t[2] and t[3] in x[2]:
                return x[2][t[3]]
            raise Unknown(self.em.c(t))
        if k == 'nextd':
            return self.items(t[1])[t[2] + 1:]
        if k == 'elem' and is_t(self.em.srcs.get(t[2]), 'agg') and self.em.srcs[t[2]][1].endswith('Range') and not is_t(t[1], 'agg') and t[2] in self.elem:
            x, i = self.items(t[1]), self.elem[t[2]]
            if not isinstance(i, int) or not 0 <= i < len(x):
                raise Unknown('element %s of %s' % (i, self.em.c(t[1])))
            return x[i]
        if k in ('elem', 'key', 'val'):
            if t[2][0] == 'k':
                x = self.items(t[1])
                if t[2][1] >= len(x):
                    raise Unknown(self.em.c(t))
                x = x[t[2][1]]
                return x[0] if k == 'key' else x[1] if k == 'val' else x
            if t[2] not in self.elem:
                raise Unknown(self.em.c(t))
            x = self.elem[t[2]]
            return x[0] if k == 'key' else x[1] if k == 'val' else x
        if k == 'pos':
            if t[1] in self.pos:
                return self.pos[t[1]]
            raise Unknown('a position')
        if k == 'phi' and len(t) == 3:
            if (t[1], t[2]) in self.where:
                return self.get(self.where[t[1:]])
            if self.changes is not None and t[2] == ('ext', self.changes):
                return self.after
            if (t[1], t[2]) in self.phi:
                return self.phi[(t[1], t[2])]
            raise Unknown(self.em.c(t))
        if k == 'lit':
            return self.lit(t[1], t[2])
        if k == 'not':
            return not self.ev(t[1])
        if k == 'agg' and t[2] != t[1].split('::')[-1]:
            return ('enum', t[2], {a: self.ev(b) for a, b in t[3]})
        if k == 'lin':
            return sum(n * self.ev(x) for x, n in t[1]) + t[2]
        if k == 'tuple':
            return tuple(self.ev(x) for x in t[1])
        if k == 'array':
            return [self.ev(x) for x in t[1]]
        if k == 'nth':
            if t[1] in self.nth:
                return self.nth[t[1]]
            raise Unknown('a position')
        if k == 'of':
            return self.part(t)
        if k == 'callm' and t[1] == 'Peekable::peek':
            Ls = [L for L in self.pos if L in self.em.srcs and base(self.em.srcs[L]) == base(t[2][0])]
            if len(Ls) != 1:
                raise Unknown(self.em.c(t))
            x, some, i = self.peek(Ls[0], t[2][0])
            return ('enum', 'Some', {'0': x}) if some else ('enum', 'None', {})
        if k in ('call', 'callm'):
            if t[1] == 'len':
                return len(self.items(t[2][0])) if not isinstance(self.ev(t[2][0]), str) else len(self.ev(t[2][0]))
            if self.entry(t):
                m, k = self.ev(t[2][0][2][0]), self.ev(t[2][0][2][1])
                return ([b for a, b in m['__map'] if self.w.same(a, k)] + [self.ev(t[2][1])])[0]
            if t[1] == 'map_iter':
                return self.items(t[2][0])
            if t[1] in ('eq', 'ne') and len(t[2]) == 2:
                return (self.w.same(self.ev(t[2][0]), self.ev(t[2][1]))) == (t[1] == 'eq')
            return self.w.call(t[1], [self.ev(x) for x in t[2]], self, t)
        if k == 'with':
            def put(x, path):
                if not path:
                    return self.ev(t[3])
                if path[0][0] != 'f' or not isinstance(x, dict) or path[0][1] not in x:
                    raise Unknown('a change of ' + self.em.c(t[1]))
                return {**x, path[0][1]: put(x[path[0][1]], path[1:])}
            return put(self.ev(t[1]), t[2])
        if k in ('fmt', 'fstr'):
            return self.pieces(t[1], None, None)
        if k == 'new':
            return {'__map': []} if t[1] == 'BTreeMap' else [] if t[1] == 'Vec' else ''
        if k == 'cname':
            return list(t[2]) if isinstance(t[2], tuple) else t[2]
        if k in ('idx', 'slice'):
            if is_t(t[2], 'agg'):
                r = dict(t[2][3])
                a, x = self.ev(r['start']) if 'start' in r else 0, self.items(t[1])
                b = self.ev(r['end']) if 'end' in r else len(x)
                if not 0 <= a <= b <= len(x):
                    raise Unknown('a slice out of range')
                return x[a:b]
            x, i = self.items(t[1]), self.ev(t[2])
            if not 0 <= i < len(x):
                raise Unknown('element %d of %s' % (i, self.em.c(t[1])))
            return x[i]
        if k == 'cases':
            return self.case(t)
        if k == 'iter' and t[1] in ('collect', 'any', 'all', 'count') and (len(t[3]) == 1 or t[1] == 'count' or len(t) > 5):
            op, src, body, L = t[1:5]
            if len(t) > 5:
                body = t[5:]
            out = []
            drops = L in self.em.an.dropping
            subs = sorted({(x[2], x[1]) for x in walk(body) if is_t(x, 'elem') and x[2] in ((L, 'c0'), (L, 'c1'))}, key=lambda x: x[0][1])
            for L2, src2 in subs or [(L, src)]:
                mine = body[0]
                if subs and is_t(mine, 'cases'):  # one after the other: what concerns the elements of this part
                    mine = ('cases', tuple(x for x in mine[1] if not any(is_t(y, 'elem') and y[2] != L2 and y[2] in [z[0] for z in subs] for y in walk(x))))
                saved = (dict(self.elem), dict(self.pos))
                try:
                    for i, x in enumerate(self.items(src2)):
                        self.bind(L2, src2, x, i)
                        if drops:
                            y = self.case(mine, ('left out',))
                            if y == ('stop',):
                                break
                            if y == ('left out',):
                                continue
                            out.append(y)
                        else:
                            out.append(self.ev(mine))
                finally:
                    self.elem, self.pos = saved
            return out if op == 'collect' else any(out) if op == 'any' else all(out) if op == 'all' else len(out)
        if k == 'iter' and t[1] in ('find', 'position') and (len(t[3]) == 1 or len(t) > 5):
            what = self.em.an.found.get(t[4], ())
            if t[1] == 'find' and len(what) != 1:
                raise Unknown(self.em.c(t))
            saved = (dict(self.elem), dict(self.pos))
            try:
                for i, x in enumerate(self.items(t[2])):
                    self.bind(t[4], t[2], x, i)
                    if self.ev(t[5] if len(t) > 5 else t[3][0]):
                        return ('enum', 'Some', {'0': self.ev(next(iter(what))) if t[1] == 'find' else i})
                return ('enum', 'None', {})
            finally:
                self.elem, self.pos = saved
        if k == 'agg' and t[2] == t[1].split('::')[-1]:  # a struct
            return {a: self.ev(b) for a, b in t[3]}
        raise Unknown(self.em.c(t))
