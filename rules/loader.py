"""The schema loader as a guarded-event summary, with short names for the values it moves around."""
from spec import *

T = ('const', True)
POPS = ('Vec::pop', 'VecDeque::pop_front', 'VecDeque::pop_back', 'BTreeMap::pop_first', 'Vec::remove', 'VecDeque::remove')
NSPAT = "Namespace{components:iter:collect(components(with_extension(%s, '')) => into:identifier::Identifier(to_string_lossy(elem(components(with_extension(%s, ''))).Normal)))}"


def is_pop(t):
    return is_t(t, 'vf') and t[2] == 'Some' and t[3] == '0' and t[1][0] in ('call', 'callm') and t[1][1] in POPS


CONV = 'schema_loader::path_to_namespace'


def ns(x):
    return 'path_to_namespace(%s)' % x


def conversion(prog, rep):
    """a path is turned into the namespace made of all its components, without the file's extension"""
    from engine import Analyzer
    c = Canon()
    if not prog.has(CONV):
        return rep.fail('anchor:' + CONV, 'the function %s the rule is anchored at does not exist' % CONV)
    src = "components(with_extension(arg0, ''))"
    item = 'into:identifier::Identifier(to_string_lossy(elem(%s).Normal))' % src

    def put(e, st):
        if e['kind'] == 'call' and e['f'] == 'Vec::push':
            v = c(strip(e['args'][1]))
            rep.ob(v == item and ghost(an, st, 'put') != T, 'namespace', 'a component of a path adds %s to its namespace' % v[:200], e['site'])
            pushes.append(e)
            ghost(an, st, 'put', True)

    def latch(a, st, lp):
        rep.ob(not pushes or ghost(an, st, 'put') == T, 'namespace', 'a component of a path is left out of its namespace; path: %s' % c.show(st.guard)[:300])
        ghost(an, st, 'put', False)
    pushes = []
    an = Analyzer(prog, opaque=opaque(minus={CONV}), monitors=put, latch_hook=latch)

    def init(st):
        st.store[('mon', 'put')] = ('const', False)
    for st, rv in analyze_with(rep, an, CONV, init) or []:
        if c(rv) == NSPAT % ('arg0', 'arg0'):
            rep.ob(not pushes, 'namespace', 'something else is pushed while a path is turned into a namespace')
            continue
        ok = c(rv) == 'Namespace{components:new Vec}' and all({c(x) for x in exhausted(cj)} == {src} for cj in st.guard)
        rep.ob(ok and pushes, 'namespace', 'a path is turned into the namespace %s' % c(rv)[:300])


def proj(t, path):
    """apply a projection path (tuple of ('f', i) / ('vf', variant, i)) to a constructed value"""
    for p in path:
        if p[0] == 'f':
            if is_t(t, 'tuple'):
                t = t[1][int(p[1])]
            elif is_t(t, 'agg'):
                d = dict(t[3])
                if p[1] not in d:
                    return None
                t = d[p[1]]
            else:
                t = ('f', t, p[1])
        else:
            if is_t(t, 'agg') and t[2] == p[1]:
                t = dict(t[3]).get(p[2])
            elif is_t(t, 'agg'):
                return None
            else:
                t = ('vf', t, p[1], p[2])
        if t is None:
            return None
    return t


def path_from_pop(t):
    """the projection path of a term rooted at the popped worklist item, or None"""
    out = []
    while True:
        if is_pop(t):
            return tuple(reversed(out))
        if is_t(t, 'f'):
            out.append(('f', t[2]))
            t = t[1]
        elif is_t(t, 'vf'):
            out.append(('vf', t[2], t[3]))
            t = t[1]
        else:
            return None


def place_of(e):
    r = e['raw'][0]
    return r[1:3] if is_t(r, 'ref') else base(r)


class Loader:
    """names: BASE (directory of the given file), ITEM (popped worklist item), CUR (path of the current file, relative),
    TEXT, TOKENS, SCHEMA, IMP (an import of it), FULL (canonical path of the import), REL (it relative to the base)"""

    def __init__(self, prog, rep, monitor=None, latch=None, ghosts=(), **kw):
        self.rep = rep
        self.c = c = Canon([(is_pop, 'ITEM')])
        self.cur = None
        self.an = None
        pre = analyze(rep, prog, 'schema_loader::load_schemas', extra={CONV})
        if pre[0] is None:
            return
        # the current file: what is read
        reads = [e for e in pre[0].events if e['kind'] == 'call' and e['f'] == 'fs::read_to_string']
        curs = set()
        for e in reads:
            a = strip(e['args'][0])
            if is_t(a, 'call') and a[1] == 'Path::join' and c(a[2][0]) == 'parent(arg0).Some':
                p = path_from_pop(a[2][1])
                if p is not None:
                    curs.add(a[2][1])
                    continue
            rep.fail('read', 'a schema file is read from %s, not from its path below the base directory' % c(a)[:200], e['site'])
        rep.ob(len(curs) == 1, 'anchor:read', 'the loader does not read the files of its worklist')
        if len(curs) != 1:
            return
        self.cur = curs.pop()
        c.add(self.cur, 'CUR')
        c.add(('vf', ('call', 'Path::parent', (('param', 0),)), 'Some', '0'), 'BASE')
        text = ('vf', ('call', 'fs::read_to_string', (('call', 'Path::join', (('vf', ('call', 'Path::parent', (('param', 0),)), 'Some', '0'), self.cur)),)), 'Ok', '0')
        c.add(text, 'TEXT')
        toks = ('vf', ('call', 'tokenizer::tokenize', (self.cur, text)), 'Ok', '0')
        c.add(toks, 'TOKENS')
        schema = ('vf', ('call', 'parser::parse', (self.cur, text, toks)), 'Ok', '0')
        c.add(schema, 'SCHEMA')
        imp = lambda t: is_t(t, 'val') and t[1] == ('f', schema, 'imports')
        c.names.append((imp, 'IMP'))
        c.names.append((lambda t: t == ('vf', ('call', 'Path::file_name', (('param', 0),)), 'Some', '0'), 'FILE'))
        full = lambda t: is_t(t, 'vf') and t[2] == 'Ok' and is_t(t[1], 'call') and t[1][1] == 'Path::canonicalize' and \
            c(t[1][2][0]) in ('join(BASE, join(parent(CUR).Some, IMP.path))', 'join(join(BASE, parent(CUR).Some), IMP.path)')
        c.names.append((full, 'FULL'))
        c.names.append((lambda t: is_t(t, 'vf') and t[2] == 'Ok' and is_t(t[1], 'call') and t[1][1] == 'Path::canonicalize' and t[1][2] == (('param', 0),), 'ROOT'))
        c.names.append((lambda t: is_t(t, 'vf') and t[2] == 'Ok' and is_t(t[1], 'call') and t[1][1] == 'Path::strip_prefix' and
                        c(t[1][2][0]) == 'FULL' and c(t[1][2][1]) == 'parent(ROOT).Some', 'REL'))
        c.memo = {}
        self.an = Analyzer(prog, opaque=opaque({CONV}, {'schema_loader::load_schemas'}), monitors=monitor and (lambda e, st: monitor(self, e, st)),
                           latch_hook=latch and (lambda an, st, L: latch(self, st, L)), track_results=kw.get('track_results', False),
                           branch_hook=kw.get('branch') and (lambda an, st, l: kw['branch'](self, st, l)))

        def init(st):
            for g in ghosts:
                st.store[('mon', g)] = ('const', False)
        self.rets = analyze_with(rep, self.an, 'schema_loader::load_schemas', init) or []
        self.events = self.an.events

    def source(self, st, L):
        """canonical sources of loop L on this state"""
        return {self.c(a[1][1]) for cj in st.guard for a, v in cj if a[0] == 'is' and is_t(a[1], 'next') and a[1][2] == L and 'Some' in v}

    def worklist(self):
        return {place_of(e) for e in self.events if e['kind'] == 'call' and e['f'] in POPS}


def ghost(an, st, k, v=None):
    if v is None:
        return st.store.get(('mon', k), ('const', False))
    an.write(st, (('mon', k), ()), ('const', v) if not isinstance(v, tuple) else v)


def is_error_push(e):
    if e['kind'] != 'call' or e['f'] not in ('Vec::push', 'Vec::extend_from_slice', 'Extend::extend', 'Vec::append'):
        return False
    return any(contains(strip(a), lambda x: is_t(x, 'call') and x[1] == 'error::throw' or is_t(x, 'vf') and x[2] == 'Err') for a in e['args'][1:])


def stored(e):
    """(key, value) if this event puts a schema into the result"""
    if e['kind'] == 'call' and e['f'] == 'BTreeMap::insert':
        return strip(e['args'][1]), strip(e['args'][2])
    if e['kind'] == 'call' and e['f'] in ('VacantEntry::insert', 'VacantEntry::insert_entry'):
        t = strip(e['args'][0])
        if is_t(t, 'vf') and t[2] == 'Vacant' and is_t(t[1], 'call') and t[1][1] == 'BTreeMap::entry':
            return t[1][2][1], strip(e['args'][1])
    return None
