"""Two different schema files are never taken for one another."""
from loader import *
import c06

EXPLANATION = ('Dataflow over the loader: the test that decides whether an imported file was already visited must compare an injective '
               'image of its path (never the lossy namespace), every visited file is marked before it is enqueued (including the given one), '
               'and storing a schema under a namespace that is already taken must lead to a recorded error on every path.')
FLOORS = {'obligations': 8, 'functions': 1}
T, F = ('const', True), ('const', False)
ROOTKEY = {'REL': 'FILE', 'FULL': 'ROOT', 'join(BASE, REL)': 'join(BASE, FILE)'}
CURKEY = ('CUR', 'join(BASE, CUR)')
SETS = ('HashSet::contains', 'BTreeSet::contains', 'HashSet::insert', 'BTreeSet::insert')


def monitor(L, e, st):
    an = L.an
    if is_error_push(e):
        ghost(an, st, 'err', True)
    if e['kind'] != 'call':
        return
    if e['f'] in ('HashSet::insert', 'BTreeSet::insert'):
        if L.c(e['args'][1]) in ROOTKEY:
            ghost(an, st, 'mark', True)
        if L.c(e['args'][1]) in CURKEY:
            ghost(an, st, 'first', True)
    if e['f'] in ('Vec::push', 'VecDeque::push_back', 'VecDeque::push_front') and e['loops'] and c06.pushed(L, e):
        ghost(an, st, 'enq', True)
    if stored(e):
        ghost(an, st, 'stored', True)


def latch(L, st, lp):
    an, c = L.an, L.c
    src = L.source(st, lp)
    if src == {'SCHEMA.imports'}:
        if ghost(an, st, 'enq') == T:
            if ghost(an, st, 'mark') != T:
                L.unmarked.append('an imported file is enqueued without being marked as visited; path: %s' % c.show(st.guard)[-500:])
            L.enqs += 1
        ghost(an, st, 'enq', False)
        ghost(an, st, 'mark', False)
    elif lp == L.outer:
        if ghost(an, st, 'stored') == T:
            tested = all(any(a[0] == 'b' and a[1][0] in ('call', 'callm') and a[1][1] in SETS and c(a[1][2][1]) in CURKEY and
                             v == frozenset([a[1][1].endswith('insert')]) for a, v in cj) for cj in st.guard)
            L.atpop.add(tested and ghost(an, st, 'first') == T)
            for cj in st.guard:
                lits = c.conj(cj)
                free = any(re.match(r'insert\(.*\) is None$', x) or re.match(r'¬contains_key\(', x) or re.match(r'get\(.*\) is None$', x) or re.match(r'entry\(.*\) is Vacant$', x) for x in lits)
                L.rep.ob(free or ghost(an, st, 'err') == T, 'conflict', 'a schema can replace another one stored under the same namespace without '
                         'an error being recorded; path: {%s}' % '; '.join(sorted(lits))[-700:])
                L.stores += 1
        for k in ('err', 'stored', 'first'):
            ghost(an, st, k, False)


def check(prog, rep):
    class Hold(Loader):
        stores = enqs = 0
        outer = None
    pre = analyze(rep, prog, 'schema_loader::load_schemas', extra={CONV})
    if pre[0] is None:
        return
    for e in pre[0].events:
        if e['kind'] == 'call' and e['f'] in POPS and e['loops']:
            Hold.outer = e['loops'][-1]
    L = Hold.__new__(Hold)
    L.unmarked, L.atpop = [], set()
    L.__init__(prog, rep, monitor=monitor, latch=latch, ghosts=('err', 'enq', 'mark', 'stored', 'first'))
    if L.an is None:
        return
    c = L.c
    tests = 0
    used = set()
    atpop = L.atpop == {True}   # visited files are told apart when they leave the worklist
    for i in range(0 if atpop else L.enqs):
        rep.ob(i >= len(L.unmarked), 'unmarked', L.unmarked[i] if i < len(L.unmarked) else '')
    for e in L.events:
        if e['kind'] != 'call':
            continue
        if e['f'] in ('Vec::push', 'VecDeque::push_back', 'VecDeque::push_front') and c06.pushed(L, e) and e['loops']:
            for cj in e['guard']:
                keys = set()
                for a, v in cj:
                    if a[0] == 'b' and a[1][0] in ('call', 'callm') and a[1][1] in SETS and v == frozenset([a[1][1].endswith('insert')]):
                        keys.add(c(a[1][2][1]))
                tests += 1
                rep.ob(atpop or keys and keys <= set(ROOTKEY), 'visited-key', 'whether an imported file was already visited is decided by %s, which '
                       'does not identify the file' % ([k[:200] for k in sorted(keys)] or 'no test of a visited set'), e['site'])
                used |= keys
        if e['f'] in ('HashSet::insert', 'BTreeSet::insert') and not e['loops']:
            k = c(e['args'][1])
            used.add(('root', k))
    rep.ob(tests > 0, 'anchor:visited', 'the loader never enqueues an import')
    rep.ob(L.stores > 0, 'anchor:store', 'the loader never stores a schema')
    roots = {k[1] for k in used if isinstance(k, tuple)}
    for k in used:
        if isinstance(k, str) and k in ROOTKEY:
            rep.ob(ROOTKEY[k] in roots, 'root-unmarked', 'the given schema is not marked as visited (%s is tested, %s marked at the start)' % (k, sorted(x[:80] for x in roots)))
