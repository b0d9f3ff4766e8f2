"""The syntax tree holds exactly what the tokens say."""
from grammar import *
import c12

EXPLANATION = ('Dataflow over the parser\'s functions: on every accepting path the returned type, field, import, declaration and schema are compared '
               'component by component with the tokens that path consumed (which token\'s payload, at which position, or which sub-parser\'s '
               'result); every parsed import, field, deleted index and declaration must be stored exactly once on every accepting loop iteration, '
               'in order, in a container created in the right scope and changed by nothing else; a comment belongs to the file exactly if it '
               'is not directly followed by a declaration.')
FLOORS = {'obligations': 40, 'functions': 2}
EMPTY = ('Vec', 'Vec::new', 'BTreeSet')


class Row:
    """one accepting edge: consumed items with their positions"""

    def __init__(self, a, e):
        self.a, self.e, self.c = a, e, a.c
        self.items, self.pos, self.nts = [], [], []
        nts = a.decode(e['cj'])[2]
        i = 0
        for j, s in enumerate(e['segs']):
            if j:
                call = next(t for site, (t, v) in nts.items() if site is not None and tuple(s[0][2][1:]) == tuple(site))
                self.items.append(s[2])
                self.pos.append(call)
            for o in range(s[1]):
                self.items.append(None)
                self.pos.append(s[0] if o == 0 else ('lin', ((s[0], 1),), o))
        for i, x in enumerate(e['items']):
            self.items[i] = x
        self.i = 0

    def peek(self, *names):
        return self.i < len(self.items) and not isinstance(self.items[self.i], str) and self.items[self.i] <= set(names)

    def take(self):
        self.i += 1
        return self.i - 1

    def kind(self, i):
        x = self.items[i]
        return next(iter(x)) if len(x) == 1 else '|'.join(sorted(x))

    def payload(self, i, v):
        return self.c(('vf', ('f', ('idx', self.a.TOK, self.pos[i]), 'variant'), v, '0'))

    def sub(self, i):
        return self.c(('vf', self.pos[i], 'Some', '0'))


def field(agg, name):
    if not is_t(agg, 'agg'):
        return None
    return dict(agg[3]).get(name)


def empty(t):
    return is_t(t, 'new') and t[1] in EMPTY or is_t(t, 'const') and t[1] in ('[]',) or is_t(t, 'agg') and not t[3]


def check(prog, rep):
    par = Parser(prog, rep)
    if not par.ok:
        return
    n = {}
    for nt in ('TYPE', 'FIELD', 'IMPORT'):
        a = par.auto(nt)
        for e in a.edges:
            if e['err'] or e['dst'] != 'ret' or not (is_t(e['rv'], 'agg') and e['rv'][2] == 'Some'):
                continue
            if e['src'] != a.start:
                rep.fail('shape:' + nt, 'the parser of %s is not straight-line: what it returns cannot be related to the tokens' % nt.lower())
                continue
            v = e['rv'][3][0][1]
            r = Row(a, e)
            n[nt] = n.get(nt, 0) + 1
            try:
                {'TYPE': type_, 'FIELD': field_, 'IMPORT': import_}[nt](rep, a, r, v)
            except (IndexError, TypeError) as x:
                rep.fail('shape:' + nt, 'the parser of %s accepts a sequence that has no meaning: %s' % (nt.lower(), [sorted(y) if not isinstance(y, str) else y for y in r.items]))
    for nt in ('TYPE', 'FIELD', 'IMPORT'):
        rep.ob(n.get(nt, 0) > 0, 'anchor:' + nt, 'the parser of %s returns nothing' % nt.lower())
    schema(par, rep)


def eq(rep, a, got, want, key, what):
    g = a.c(got) if got is not None else 'nothing'
    rep.ob(g in (want if isinstance(want, (tuple, list, set)) else (want,)), key, '%s is taken from %s, expected %s' % (what, g[:160], want))


def type_(rep, a, r, v):
    if r.items[0] == frozenset(['LeftSquare']):
        want = 'Array{0:%s}' % r.sub(1)
    elif r.peek('Identifier'):
        if len(r.items) == 1:
            want = 'Custom{0:None{}, 1:%s}' % r.payload(0, 'Identifier')
        else:
            want = 'Custom{0:Some{0:%s}, 1:%s}' % (r.payload(0, 'Identifier'), r.payload(2, 'Identifier'))
    else:
        want = r.kind(0) + '{}'
    eq(rep, a, field(v, 'variant'), want, 'type:' + want.split('{')[0], 'a type')


def field_(rep, a, r, v):
    if r.peek('Comment'):
        eq(rep, a, field(v, 'comment'), r.payload(r.take(), 'Comment'), 'field:comment', 'the comment of a field')
    else:
        rep.ob(empty(field(v, 'comment')), 'field:no-comment', 'a field without a comment gets one: %s' % a.c(field(v, 'comment'))[:120])
    rule = 'Required'
    if r.peek('Asymmetric', 'Optional'):
        rule = r.kind(r.take())
    eq(rep, a, field(v, 'rule'), rule + '{}', 'field:rule:' + rule, 'the rule of a field')
    eq(rep, a, field(v, 'name'), r.payload(r.take(), 'Identifier'), 'field:name', 'the name of a field')
    if r.peek('Colon'):
        r.take()
        eq(rep, a, field(v, 'type'), r.sub(r.take()), 'field:type', 'the type of a field')
    else:
        eq(rep, a, field(field(v, 'type'), 'variant'), 'Unit{}', 'field:unit', 'the type of a field without a type')
    r.take()
    eq(rep, a, field(v, 'index'), r.payload(r.take(), 'Integer'), 'field:index', 'the index of a field')


CONV = ('to_string_lossy', 'as_ref', 'to_str', 'to_owned', 'to_string', 'into_owned', 'into', 'from', 'as_str', 'deref', 'borrow', 'clone', 'to_os_string', 'into_string')


def through(t):
    """what a chain of plain conversions starts from"""
    while True:
        t = strip(t)
        if is_t(t, 'call') and t[2] and t[1].split('<')[0].replace('Identifier', '').split('::')[-1].split(':')[0] in CONV or is_t(t, 'call') and t[1].startswith('into:'):
            t = t[2][0]
        elif is_t(t, 'vf') and t[2] in ('Some', 'Ok', 'Borrowed', 'Owned'):
            if is_t(strip(t[1]), 'call') and strip(t[1])[1].endswith('file_stem'):
                return t
            t = t[1]
        else:
            return t


def import_(rep, a, r, v):
    if not (is_t(v, 'tuple') and len(v[1]) == 2):
        rep.fail('shape:IMPORT', 'the parser of imports returns no pair')
        return
    name, imp = v[1]
    path = r.payload(1, 'Path')
    eq(rep, a, field(imp, 'path'), path, 'import:path', 'the path of an import')
    eq(rep, a, field(imp, 'namespace'), 'None{}', 'import:namespace', 'the namespace of a parsed import')
    if len(r.items) > 2:
        eq(rep, a, name, r.payload(3, 'Identifier'), 'import:as', 'the explicit name of an import')
    else:
        rep.ob(a.c(through(name)) == 'file_stem(%s).Some' % path, 'import:stem', 'the implicit name of an import is taken from %s instead of the name of the file' % a.c(name)[:160])


def schema(par, rep):
    a = par.auto('SCHEMA')
    c = a.c
    rets = [e for e in a.edges if e['dst'] == 'ret' and not e['err']]
    rep.ob(bool(rets), 'anchor:schema', 'no schema is accepted')
    if not rets:
        return
    parts = {k: {base(field(e['rv'], k)) if field(e['rv'], k) is not None else None for e in rets} for k in ('imports', 'declarations')}
    for k, s in parts.items():
        if not rep.ob(len(s) == 1 and is_t(next(iter(s)), 'new'), 'anchor:' + k, 'the %s of a schema are not one collection: %s' % (k, [c(x)[:80] for x in s if x])):
            return
    imports, decls = next(iter(parts['imports'])), next(iter(parts['declarations']))
    header(par, rep, a, rets)
    ev = a.an.events

    def on(b):
        return [e for e in ev if e['kind'] == 'call' and e.get('rargs') and e['args'] and base(e['rargs'][0]) == b and not e.get('local')]

    def scope(b, loops, what):
        made = {e['loops'] for e in ev if e['kind'] == 'new' and e['obj'] == b}
        rep.ob(made == {loops}, 'scope:' + what, 'the collection of %s is not created once per %s' % (what, 'file' if not loops else 'declaration'))

    READ = ('len', 'is_empty', 'iter', 'contains', 'contains_key', 'get', 'clone', 'new')

    def stored(b, ops, what, good):
        """the events that store into b; everything else on it only reads"""
        out = []
        for e in on(b):
            op = e['f'].split('::')[-1]
            if op in READ:
                continue
            if rep.ob(op in ops, 'changed:' + what, 'the collection of %s is changed by %s' % (what, e['f']), e['site']):
                out.append(e)
        rep.ob(bool(out), 'anchor:stored:' + what, 'no %s is ever stored' % what)
        for e in out:
            good(e)
        return out

    def always(L, b, what):
        """every accepted iteration stores"""
        for e in a.edges:
            M, done, _ = a.stored.get(id(e['st']), (None, (), None))
            if M != L or e['err']:
                continue
            rep.ob(b in done, 'dropped:' + what, 'a parsed %s is not stored, if %s' % (what, c.show([e['cj']])[:300]))

    # imports
    def imp_ok(e):
        k, v = strip(e['args'][1]), strip(e['args'][2]) if len(e['args']) > 2 else None
        call = k[1][1] if is_t(k, 'f') and is_t(k[1], 'vf') else None
        ok = call is not None and call[0] in ('call', 'callm') and call[1] == par.fns['IMPORT'] and k == ('f', ('vf', call, 'Some', '0'), '0') and v == ('f', ('vf', call, 'Some', '0'), '1')
        rep.ob(ok, 'stored:import', 'an import is stored as %s -> %s' % (c(k)[:100], c(v)[:100]), e['site'])
    scope(imports, (), 'imports')
    ie = stored(imports, ('insert',), 'import', imp_ok)
    for L in {e['loops'][-1] for e in ie if e['loops']}:
        always(L, imports, 'import')
    rep.ob(all(len(e['loops']) == 1 for e in ie), 'loop:import', 'imports are not stored in one loop over the tokens')
    # declarations
    scope(decls, (), 'declarations')
    subs = {'fields': set(), 'deleted': set()}

    def decl_ok(e):
        v = strip_top(e['args'][1])
        if not (is_t(v, 'agg') and v[1] == 'schema::Declaration'):
            rep.fail('stored:declaration', 'a declaration is stored as %s' % c(v)[:200], e['site'])
            return
        for k in subs:
            subs[k].add(base(field(v, k)))
        L = e['loops'][-1]
        head = ('phi', L, a.root)
        for cj in e['guard']:
            toks, lens, nts, other = a.decode(cj)
            d = toks.get(head, {})
            P = lambda o: head if o == 0 else ('lin', ((head, 1),), o)
            pay = lambda o, x: c(('vf', ('f', ('idx', a.TOK, P(o)), 'variant'), x, '0'))
            o = 0
            if d.get(0) == frozenset(['Comment']):
                o = 1
                eq(rep, a, field(v, 'comment'), pay(0, 'Comment'), 'declaration:comment', 'the comment of a declaration')
            else:
                rep.ob('Comment' not in d.get(0, {'Comment'}) and empty(field(v, 'comment')), 'declaration:no-comment', 'a declaration without a comment gets one: %s' % c(field(v, 'comment'))[:120], e['site'])
            kw = d.get(o, frozenset())
            eq(rep, a, field(v, 'variant'), '|'.join(sorted(kw)) + '{}', 'declaration:variant', 'the kind of a declaration')
            eq(rep, a, field(v, 'name'), pay(o + 1, 'Identifier'), 'declaration:name', 'the name of a declaration')
    de = stored(decls, ('push', 'push_back'), 'declaration', decl_ok)
    rep.ob(all(len(e['loops']) == 1 for e in de), 'loop:declaration', 'declarations are not stored in one loop over the tokens')
    for L in {e['loops'][-1] for e in de if e['loops']}:
        always(L, decls, 'declaration')
        for k, s in subs.items():
            if not rep.ob(len(s) == 1 and (is_t(next(iter(s)), 'new')), 'anchor:' + k, 'the %s of a declaration are not one collection: %s' % (k, [c(x)[:80] for x in s])):
                continue
            b = next(iter(s))
            scope(b, (L,), k)
            if k == 'fields':
                def f_ok(e):
                    v = strip(e['args'][1])
                    ok = is_t(v, 'vf') and v[2] == 'Some' and v[1][0] in ('call', 'callm') and v[1][1] == par.fns['FIELD']
                    rep.ob(ok, 'stored:field', 'a field is stored as %s' % c(v)[:160], e['site'])
                se = stored(b, ('push', 'push_back'), 'field', f_ok)
            else:
                def d_ok(e):
                    v = strip(e['args'][1])
                    head = ('phi', e['loops'][-1], a.root)
                    ok = v == ('vf', ('f', ('idx', a.TOK, head), 'variant'), 'Integer', '0')
                    rep.ob(ok, 'stored:deleted', 'a deleted index is taken from %s' % c(v)[:160], e['site'])
                se = stored(b, ('insert',), 'deleted index', d_ok)
            rep.ob(all(len(e['loops']) == 2 and e['loops'][0] == L for e in se), 'loop:' + k, '%s are not stored in one loop per declaration' % k)
            for M in {e['loops'][-1] for e in se}:
                always(M, b, 'field' if k == 'fields' else 'deleted index')


def strip_top(t):
    while is_t(t, 'mut'):
        t = t[1]
    return t


def header(par, rep, a, rets):
    """the comment of the file"""
    c = a.c
    DECL = {'Struct', 'Choice'}

    def verdict(cj):
        """must the first comment belong to the file? True / False / None (not decided by the conditions)"""
        toks, lens, nts, other = a.decode(cj)
        d = toks.get(a.start, {})
        ln = [(0, INF)]
        for more in lens.get(a.start, ()):
            ln = [(max(x, p), min(y, q)) for x, y in ln for p, q in more if max(x, p) <= min(y, q)]
        if all(hi <= 0 for lo, hi in ln):
            return False
        if 0 in d and 'Comment' not in d[0]:
            return False
        gap = None
        for at, v in other:
            if c12.kind(a, at) == 'layout':
                co = {c(k): n for k, n in at[1][1]}
                s1, e0 = c(('f', ('f', ('idx', a.TOK, ('lin', ((a.start, 1),), 1)), 'source_range'), 'start')), c(('f', ('f', ('idx', a.TOK, a.start), 'source_range'), 'end'))
                if co == {s1: 1, e0: -1}:
                    lo, hi = min(x for x, y in v) - at[1][2], max(y for x, y in v) - at[1][2]
                    gap = True if lo >= 2 else False if hi <= 1 else None
                elif co == {s1: -1, e0: 1}:
                    lo, hi = min(x for x, y in v) - at[1][2], max(y for x, y in v) - at[1][2]
                    gap = True if hi <= -2 else False if lo >= -1 else None
        last = all(hi <= 1 for lo, hi in ln)
        sure = d.get(0) == frozenset(['Comment'])
        if last or 1 in d and not d[1] & DECL:
            return True if sure else None
        if 1 in d and d[1] <= DECL:
            return (True if sure else None) if gap is True else False if gap is False else None
        return True if gap is True and sure else None
    for e in a.edges:
        if e['src'] == a.start and is_t(e['dst'], 'phi') and not e['err']:
            w = verdict(e['cj'])
            rep.ob(w is not None and len(e['items']) == (1 if w else 0), 'header:consumed', 'the first comment is %s although it %s directly followed by a declaration, if %s' % (
                'skipped' if e['items'] else 'kept', 'is not' if w else 'may be', c.show([e['cj']])[:300]))
    for e in rets:
        w = verdict(e['cj'])
        got = field(e['rv'], 'comment')
        if w:
            eq(rep, a, got, c(('vf', ('f', ('idx', a.TOK, a.start), 'variant'), 'Comment', '0')), 'header:comment', 'the comment of a file')
        elif w is False:
            rep.ob(empty(got), 'header:none', 'the comment of a declaration becomes the comment of the file: %s' % c(got)[:120])
        else:
            rep.fail('header:undecided', 'the comment of the file is %s although its place is not examined: %s' % (c(got)[:100], c.show([e['cj']])[:300]))
