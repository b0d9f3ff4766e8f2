"""Loading yields exactly the given schema and everything it imports, each under the namespace of its own file."""
from loader import *

EXPLANATION = ('Worklist-invariant dataflow over the loader: every projection of a worklist item that the loader later uses (path, '
               'namespace) is checked at every place an item is put in; ghost state per import checks that each import of each loaded '
               'file is resolved relative to that file, recorded as the import\'s namespace and either already visited or enqueued, and '
               'per file that it is parsed from its own contents and stored under its own namespace, unless an error is recorded.')
FLOORS = {'obligations': 20, 'functions': 3}
T, F = ('const', True), ('const', False)


def monitor(L, e, st):
    an, c = L.an, L.c
    if is_error_push(e):
        ghost(an, st, 'err', True)
        ghost(an, st, 'ierr', True)
    if e['kind'] == 'store' and is_t(e['val'], 'with') and e['val'][2] == (('f', 'namespace'),):
        if c(e['val'][1]) == 'IMP' and c(e['val'][3]) == 'Some{0:%s}' % ns('REL'):
            ghost(an, st, 'ns', True)
        else:
            L.rep.fail('import-namespace', 'an import is resolved to %s' % c(e['val'][3])[:300], e['site'])
    if e['kind'] != 'call':
        return
    if e['f'] in ('Vec::push', 'VecDeque::push_back', 'VecDeque::push_front') and e['loops'] and pushed(L, e):
        ghost(an, st, 'enq', True)
    if e['f'] in ('HashSet::insert', 'BTreeSet::insert') and c(e['args'][1]) in KEYS:
        ghost(an, st, 'mark', True)
    if stored(e):
        ghost(an, st, 'stored', True)


KEYS = ('REL', 'FULL', 'join(BASE, REL)', ns('REL'))


def pushed(L, e):
    """the worklist item enqueued by this event, or None"""
    v = strip(e['args'][1])
    p = path_from_pop(L.cur)
    return v if p is not None and proj(v, p) is not None and is_t(v, 'tuple') or is_t(v, 'agg') and v[1] != 'error::Error' else None


def branch(L, st, l):
    a, v = l
    if a[0] == 'b' and a[1][0] in ('call', 'callm') and a[1][1] in ('HashSet::contains', 'BTreeSet::contains', 'HashSet::insert', 'BTreeSet::insert'):
        seen = v == frozenset([a[1][1].endswith('contains')])
        if seen and L.c(a[1][2][1]) in KEYS:
            ghost(L.an, st, 'enq', True)
        if seen and L.c(a[1][2][1]) in ('CUR', 'join(BASE, CUR)'):
            ghost(L.an, st, 'again', True)


def latch(L, st, lp):
    an, c = L.an, L.c
    if is_t(lp, 'x'):
        return
    src = L.source(st, lp)
    g = c.show(st.guard)[-600:]
    if src == {'SCHEMA.imports'}:
        L.imports += 1
        ok = ghost(an, st, 'ierr') == T or ghost(an, st, 'ns') == T and ghost(an, st, 'enq') == T
        L.rep.ob(ok, 'import-skipped', 'an import is passed over without being resolved and visited (or reported): namespace recorded=%s, '
                 'visited=%s; path: %s' % (ghost(an, st, 'ns')[1], ghost(an, st, 'enq')[1], g))
        for k in ('ierr', 'ns', 'enq', 'mark'):
            ghost(an, st, k, False)
    elif lp == L.outer:
        L.files += 1
        ok = T in (ghost(an, st, 'err'), ghost(an, st, 'stored'), ghost(an, st, 'again'))
        L.rep.ob(ok, 'file-skipped', 'a file is passed over without being stored (or reported); path: %s' % g)
        for cj in st.guard:
            if ghost(an, st, 'stored') == T and ghost(an, st, 'err') != T:
                L.rep.ob('SCHEMA.imports' in {c(s) for s in exhausted(cj)}, 'imports-partial', 'not every import of a file is visited; path: %s' % g)
        for k in ('err', 'stored', 'again'):
            ghost(an, st, k, False)


def check(prog, rep):
    conversion(prog, rep)

    class Hold(Loader):
        imports = files = 0
        outer = None
    L = Hold.__new__(Hold)

    def lat(self, st, lp):
        latch(self, st, lp)
    # the outer loop is the one the worklist is popped in
    Hold.outer = None
    pre = analyze(rep, prog, 'schema_loader::load_schemas', extra={CONV})
    if pre[0] is None:
        return
    for e in pre[0].events:
        if e['kind'] == 'call' and e['f'] in POPS and e['loops']:
            Hold.outer = e['loops'][-1]
    rep.ob(Hold.outer is not None, 'anchor:worklist', 'the loader has no worklist loop')
    L.__init__(prog, rep, monitor=monitor, latch=lat, ghosts=('err', 'ierr', 'ns', 'enq', 'mark', 'stored', 'again'), branch=branch)
    if L.an is None:
        return
    c = L.c
    rep.ob(L.imports > 0, 'anchor:imports', 'the loader has no loop over the imports of a file')
    rep.ob(L.files > 0, 'anchor:files', 'the loader has no loop over files')
    p = path_from_pop(L.cur)
    items = 0
    keys = set()
    for e in L.events:
        if e['kind'] != 'call':
            continue
        if stored(e):
            key, val = stored(e)
            kp = path_from_pop(key)
            if kp is not None and key != L.cur:
                keys.add(kp)
            else:
                rep.ob(c(key) == ns('CUR'), 'store-key', 'a schema is stored under %s' % c(key)[:200], e['site'])
            rep.ob(c(val) == '(SCHEMA, CUR, TEXT)', 'store-value', 'the stored entry is %s, not the schema, path and contents of one file' % c(val)[:300], e['site'])
        if e['f'] == 'tokenizer::tokenize':
            rep.ob([c(a) for a in e['args']] == ['CUR', 'TEXT'], 'tokenize', 'tokenize is given %s' % [c(a)[:100] for a in e['args']], e['site'])
        if e['f'] == 'parser::parse':
            rep.ob([c(a) for a in e['args']] == ['CUR', 'TEXT', 'TOKENS'], 'parse', 'parse is given %s' % [c(a)[:100] for a in e['args']], e['site'])
    # every item put in the worklist
    first = set()
    for e in L.events:
        vals = []
        if e['kind'] != 'call':
            continue
        if e['f'] in ('Vec::push', 'VecDeque::push_back', 'VecDeque::push_front'):
            v = pushed(L, e)
            if v is not None:
                vals = [v]
        elif e['f'] in POPS:
            vals = [y for x in walk(strip(e['args'][0])) if is_t(x, 'array') for y in x[1]]
            vals = [v for v in vals if (e['f'], v) not in first]
            first |= {(e['f'], v) for v in vals}
        for v in vals:
            items += 1
            x = proj(v, p)
            x = None if x is None else c(x)
            initial = e['f'] in POPS or not e['loops']
            rep.ob(x == ('FILE' if initial else 'REL'), 'item-path:%s' % ('root' if initial else 'import'),
                   'the worklist gets the path %s' % (x or 'nothing')[:300], e['site'])
            for kp in keys:
                y = proj(v, kp)
                y = None if y is None else c(y)
                rep.ob(y == ns('FILE' if initial else 'REL'), 'item-namespace:%s' % ('root' if initial else 'import'),
                       'the worklist gets a namespace that is not that of the file: %s' % (y or 'nothing')[:300], e['site'])
    rep.ob(items >= 2, 'anchor:items', 'the worklist is not filled')
    for st, rv in L.rets:
        if is_t(rv, 'agg') and rv[2] == 'Ok':
            t = strip(dict(rv[3])['0'])
            rep.ob(is_t(t, 'new') and t[1] == 'BTreeMap', 'result', 'the loader returns %s' % c(t)[:200])
            for cj in st.guard:
                lits = c.conj(cj)
                rep.ob(any(re.match(r'(pop|pop_front|pop_back)\(.*\) is None$', x) or re.match(r'len\(.*\) in \[0,0\]$', x) or x.startswith('is_empty(') for x in lits),
                       'unfinished', 'the loader can return before the worklist is empty; path: {%s}' % '; '.join(sorted(lits))[:500])
    # nothing else touches the result
    for e in L.events:
        if e['kind'] == 'call' and re.match(r'OccupiedEntry::(insert|remove|into_mut|get_mut)|Entry::', e['f']):
            rep.fail('other:' + e['f'], 'the loaded set is changed by %s' % e['f'], e['site'])
        if e['kind'] == 'call' and e['f'].startswith('BTreeMap::') and e['f'] not in ('BTreeMap::insert', 'BTreeMap::new', 'BTreeMap::entry', 'BTreeMap::values_mut', 'BTreeMap::values',
                                                                                      'BTreeMap::iter', 'BTreeMap::iter_mut', 'BTreeMap::get', 'BTreeMap::contains_key', 'BTreeMap::len', 'BTreeMap::is_empty', 'BTreeMap::keys'):
            rep.fail('other:' + e['f'], 'the loaded set is changed by %s' % e['f'], e['site'])
