"""Forward dataflow over the MIR dump.

Abstract value = provenance term (nested tuples): where a value comes from, with clones, borrows,
derefs and iterator plumbing removed.  Abstract state = (store, guard); guard is a small DNF of facts
about branch conditions, joined at merge points (complementary facts cancel).  Local non-recursive
functions and closures are inlined, so extracting or inlining a helper does not change a result.
Loop heads are widened: everything written in the loop body becomes a phi term.  There is no solver:
facts are sets of enum variants / booleans / integer intervals and are only intersected and united.
"""
import json, re, sys

sys.setrecursionlimit(20000)
INF = 1 << 200


DROPS = frozenset('Iterator::' + x for x in ('filter', 'filter_map', 'flat_map', 'flatten', 'take_while', 'skip_while', 'map_while'))
PARTIAL = frozenset('Iterator::' + x for x in ('skip', 'take', 'step_by', 'take_while', 'skip_while', 'map_while'))


class Fail(Exception):
    """The analysis cannot give an answer (reported as a violation: fail closed)."""


# ---------------------------------------------------------------- terms
def is_t(t, k):
    return isinstance(t, tuple) and len(t) > 0 and t[0] == k


def base(t):
    while is_t(t, 'mut'):
        t = t[1]
    return t


def strip(t):
    """Remove version tokens everywhere (for comparison with specifications)."""
    if not isinstance(t, tuple):
        return t
    if is_t(t, 'mut'):
        return strip(t[1])
    if is_t(t, 'callm'):
        return ('call', t[1], tuple(strip(a) for a in t[2]))
    return tuple(strip(x) for x in t)


def walk(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


# linear forms: ('lin', ((term, coef), ...), const)
def to_lin(t):
    if is_t(t, 'const') and isinstance(t[1], int) and not isinstance(t[1], bool):
        return {}, t[1]
    if is_t(t, 'lin'):
        return dict(t[1]), t[2]
    return {t: 1}, 0


def mk_lin(d, c):
    d = {k: v for k, v in d.items() if v != 0}
    # the offset of a character and its length make the offset of the next one
    for k in [k for k, v in d.items() if v == 1 and is_t(k, 'call') and k[1].endswith('len_utf8') and len(k[2]) == 1]:
        x = k[2][0]
        if is_t(x, 'idx') and is_t(x[1], 'chars') and d.get(('off', x[1][1], x[2])) == 1:
            del d[k], d[('off', x[1][1], x[2])]
            n = ('off', x[1][1], lin_add(x[2], ('const', 1)))
            d[n] = d.get(n, 0) + 1
    if not d:
        return ('const', c)
    if c == 0 and len(d) == 1:
        k, v = next(iter(d.items()))
        if v == 1:
            return k
    return ('lin', tuple(sorted(d.items(), key=lambda kv: repr(kv))), c)


def lin_add(a, b, sb=1):
    da, ca = to_lin(a)
    db, cb = to_lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sb * v
    return mk_lin(d, ca + sb * cb)


# interval sets
def iv_norm(iv):
    iv = sorted(x for x in iv if x[0] <= x[1])
    out = []
    for a, b in iv:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def iv_and(a, b):
    return iv_norm([(max(x[0], y[0]), min(x[1], y[1])) for x in a for y in b])


def iv_or(a, b):
    return iv_norm(list(a) + list(b))


def iv_not(a):
    out = []
    lo = -INF
    for x, y in iv_norm(a):
        if lo <= x - 1:
            out.append((lo, x - 1))
        lo = y + 1
    if lo <= INF:
        out.append((lo, INF))
    return iv_norm(out)


# ---------------------------------------------------------------- guards
# A literal is atom -> valset. Atoms: ('is', term) valset frozenset of variant names;
# ('b', term) frozenset of {True, False}; ('n', linterm) interval tuple.
UNIV = {}
BUILTIN_ENUMS = {
    'std::option::Option': ('None', 'Some'),
    'std::result::Result': ('Ok', 'Err'),
    'std::ops::ControlFlow': ('Continue', 'Break'),
    'std::cmp::Ordering': ('Less', 'Equal', 'Greater'),
}
FULLB = frozenset([True, False])
NONNEG = ((0, INF),)
ALL = ((-INF, INF),)


def universe(atom):
    if atom[0] == 'b':
        return FULLB
    if atom[0] == 'n':
        return ALL if is_t(atom[1], 'lin') else NONNEG
    return UNIV.get(atom[1], None)


def vs_and(atom, a, b):
    if atom[0] == 'n':
        return iv_and(a, b)
    return a & b


def vs_or(atom, a, b):
    if atom[0] == 'n':
        return iv_or(a, b)
    return a | b


def vs_full(atom, a):
    u = universe(atom)
    if u is None:
        return False
    if atom[0] == 'n':
        return iv_and(u, a) == u
    return a >= u


def num_atom(term):
    """Canonical numeric atom: returns (atom, sign, shift): value(term) = sign*value(atom)+shift."""
    d, c = to_lin(term)
    if not d:
        return None, c, 0
    items = sorted(d.items(), key=lambda kv: repr(kv))
    sign = 1
    # orient so that the lexicographically first term has a positive coefficient
    if len(items) == 1:
        sign = 1 if items[0][1] > 0 else -1
    elif items[0][1] < 0:
        sign = -1
    form = mk_lin({k: v * sign for k, v in items}, 0)
    return ('n', form), sign, c


def num_lit(term, iv):
    """literal for: value(term) in iv. Returns True/False or (atom, valset)."""
    a, s, c = num_atom(term)
    if a is None:
        return any(x <= s <= y for x, y in iv)
    iv2 = []
    for x, y in iv:
        x2 = x if abs(x) >= INF else x - c
        y2 = y if abs(y) >= INF else y - c
        if s == -1:
            x2, y2 = -y2, -x2
        iv2.append((x2, y2))
    iv2 = iv_norm(iv2)
    u = universe(a)
    iv2 = iv_and(iv2, u)
    if not iv2:
        return False
    if iv2 == u:
        return True
    return a, iv2


def conj_add(conj, lit):
    """Add a literal to a conjunction (frozenset of (atom, valset)); None if contradictory."""
    if lit is True:
        return conj
    if lit is False:
        return None
    atom, vs = lit
    for a, v in conj:
        if a == atom:
            n = vs_and(atom, v, vs)
            if not n:
                return None
            if n == v:
                return conj
            return (conj - {(a, v)}) | {(atom, n)}
    if not vs:
        return None
    if vs_full(atom, vs):
        return conj
    return conj | {(atom, vs)}


def dnf_add(dnf, lit):
    out = set()
    for c in dnf:
        n = conj_add(c, lit)
        if n is not None:
            out.add(n)
    return frozenset(out)


MAXCONJ = 48


def dnf_simplify(dnf):
    cs = set(dnf)
    changed = True
    while changed:
        changed = False
        lst = sorted(cs, key=len)
        # absorption
        keep = []
        for c in lst:
            dc = dict(c)
            ab = False
            for k in keep:
                if all(a in dc and vs_and(a, dc[a], v) == dc[a] for a, v in k):
                    ab = True
                    break
            if not ab:
                keep.append(c)
        if len(keep) != len(cs):
            changed = True
        cs = set(keep)
        # merging of two conjunctions that differ in exactly one atom
        idx = {}
        for c in list(cs):
            if c not in cs:
                continue
            done = False
            for a, v in c:
                key = (c - {(a, v)}, a)
                if key in idx and idx[key] in cs and idx[key] != c:
                    o = idx[key]
                    vo = dict(o)[a]
                    u = vs_or(a, v, vo)
                    cs.discard(c)
                    cs.discard(o)
                    n = key[0] if vs_full(a, u) else key[0] | {(a, u)}
                    cs.add(n)
                    changed = True
                    done = True
                    break
            if not done:
                for a, v in c:
                    idx[(c - {(a, v)}, a)] = c
    if len(cs) > MAXCONJ:
        common = None
        for c in cs:
            common = set(c) if common is None else common & c
        return frozenset([frozenset(common)])
    return frozenset(cs)


def dnf_or(a, b):
    return dnf_simplify(a | b)


TRUE = frozenset([frozenset()])


# ---------------------------------------------------------------- program
def short(path):
    p = path
    # strip generics <...> that are turbofish or impl headers
    out = ''
    depth = 0
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == '<':
            depth += 1
        elif ch == '>' and not (i and p[i - 1] == '-'):
            depth -= 1
        elif depth == 0:
            out += ch
        i += 1
    m = re.search(r'<impl (?:[\w:]+(?:<[^>]*>)? for )?&?(?:\[T\]|([\w:]+))[^>]*>::(\w+)$', p)
    if m:
        return (m.group(1).split('::')[-1] if m.group(1) else 'slice') + '::' + m.group(2)
    segs = [s for s in out.split('::') if s]
    return '::'.join(segs[-2:])


class Fn:
    def __init__(self, j):
        self.j = j
        self.name = j['name']
        self.nargs = j['nargs']
        self.locals = j['locals']
        self.blocks = j['blocks']
        self.file, self.line = j['span'][0], j['span'][1]
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(self.blocks):
            if b['cleanup']:
                continue
            t = b['term']
            k = t['t']
            if k == 'goto' or k == 'drop' or k == 'assert':
                s = [t['to']]
            elif k == 'switch':
                s = [a[1] for a in t['arms']] + [t['else']]
            elif k == 'call':
                s = [t['to']] if t['to'] is not None else []
            else:
                s = []
            self.succ[i] = [x for x in dict.fromkeys(s)]
        # reverse postorder
        seen, post = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        onpath = {0}
        self.back = set()
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onpath:
                    self.back.add((b, s))
                elif s not in seen:
                    seen.add(s)
                    onpath.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                stack.pop()
                onpath.discard(b)
                post.append(b)
        self.rpo = post[::-1]
        self.order = {b: i for i, b in enumerate(self.rpo)}
        pred = {}
        for b in self.rpo:
            for s in self.succ[b]:
                pred.setdefault(s, []).append(b)
        self.pred = pred
        self.loops = {}
        for (l, h) in self.back:
            body = self.loops.setdefault(h, {h})
            st = [l]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(pred.get(x, []))
        # Reorder so that a loop's body precedes the code after the loop (needed for merging).
        self._fix_order()
        # liveness of locals without address taken
        self.addr = set()
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]

        def rd(i, l):
            if l not in de[i]:
                use[i].add(l)

        def rop(i, o):
            if o['k'] in ('copy', 'move'):
                rpl(i, o['pl'])

        def rpl(i, p):
            rd(i, p['l'])
            for e in p['p']:
                if e != '*' and e[0] == 'i':
                    rd(i, e[1])

        for i in self.rpo:
            b = self.blocks[i]
            for s in b['st']:
                if s['s'] == '=':
                    r = s['rv']
                    for k in ('a', 'b'):
                        if k in r:
                            rop(i, r[k])
                    if 'pl' in r:
                        rpl(i, r['pl'])
                        if r['r'] in ('ref', 'raw') and not any(e == '*' for e in r['pl']['p']):
                            self.addr.add(r['pl']['l'])
                    for o in r.get('ops', []):
                        rop(i, o)
                    if s['pl']['p']:
                        rpl(i, s['pl'])
                    else:
                        de[i].add(s['pl']['l'])
            t = b['term']
            if t['t'] == 'switch' or t['t'] == 'assert':
                rop(i, t['a'])
                for o in t.get('ops', []):
                    rop(i, o)
            elif t['t'] == 'call':
                rop(i, t['f'])
                for o in t['args']:
                    rop(i, o)
                if t['dest']['p']:
                    rpl(i, t['dest'])
                else:
                    de[i].add(t['dest']['l'])
            elif t['t'] == 'return':
                rd(i, 0)
        self.live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in reversed(self.rpo):
                o = set()
                for s in self.succ[i]:
                    o |= self.live[s]
                nl = use[i] | (o - de[i])
                if nl != self.live[i]:
                    self.live[i] = nl
                    ch = True

    def _fix_order(self):
        # topological order of the acyclic graph where loop bodies are contiguous
        order = []
        placed = set()
        inner = {}
        for h, body in self.loops.items():
            for b in body:
                inner.setdefault(b, []).append(h)
        indeg = {b: 0 for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                if (b, s) not in self.back:
                    indeg[s] += 1
        ready = [0]
        cur = []
        import heapq

        def key(b):
            return self.order[b]

        while ready:
            # prefer blocks inside the innermost unfinished loop
            best = None
            for b in ready:
                depth = len([h for h in inner.get(b, []) if h in placed and h != b]) if True else 0
                k = (-depth, key(b))
                if best is None or k < best[0]:
                    best = (k, b)
            b = best[1]
            ready.remove(b)
            order.append(b)
            placed.add(b)
            for s in self.succ[b]:
                if (b, s) not in self.back:
                    indeg[s] -= 1
                    if indeg[s] == 0:
                        ready.append(s)
        if len(order) == len(self.rpo):
            self.rpo = order
            self.order = {b: i for i, b in enumerate(order)}

    def loops_of(self, b):
        return [h for h, body in self.loops.items() if b in body]

    def sp(self, i):
        s = self.blocks[i]['term'].get('sp') or [self.file, self.line]
        return '%s:%d' % (s[0], s[1])


def box_contents(f):
    """`vec![a, b]` fills a box through a raw pointer: let the box hold the array itself"""
    blocks = f.get('blocks') or f.get('bbs') or []
    boxes = {}
    for b in blocks:
        for x in b['st']:
            if x['s'] == '=' and x['rv'].get('kind') == 'BoxDerefTransmute' and not x['pl']['p'] and x['rv']['a'].get('pl', {}).get('p') == ['*']:
                boxes[x['pl']['l']] = x['rv']['a']['pl']['l']
    for b in blocks if boxes else ():
        for x in b['st']:
            if x['s'] == '=' and x['rv'].get('kind') == 'array' and x['pl']['l'] in boxes and x['pl']['p'][:1] == ['*']:
                x['pl'] = {'l': boxes[x['pl']['l']], 'p': []}


def cursor_loops(f):
    """`find`, `any`, `all` on a cursor over the characters of a text are loops: write them as such"""
    blocks = f['blocks']
    for b in list(blocks):
        t = b['term']
        fn = t.get('f', {}).get('fn') if t['t'] == 'call' else None
        if not fn or fn['path'] not in ('std::iter::Iterator::find', 'std::iter::Iterator::any', 'std::iter::Iterator::all'):
            continue
        it, clo = fn['args'][0], fn['args'][1]
        if not re.match(r"^(&mut )*(std::iter::Peekable<)?std::str::CharIndices<'\w+>>?$", str(it)) or not isinstance(clo, dict) or t['to'] is None:
            continue
        if t['args'][0].get('k') not in ('move', 'copy') or t['args'][0]['pl']['p'] or t['args'][1].get('k') not in ('move', 'copy'):
            continue
        sp, n, find = t['sp'], len(f['locals']), fn['path'].endswith('find')
        item, opt = '(usize, char)', 'std::option::Option<(usize, char)>'
        f['locals'] += ['&mut %s' % it, opt, 'isize', item, '&' + item, '(%s%s,)' % ('&' * find, item), '&mut {closure}', 'bool']
        ref, nxt, dis, elt, eref, tup, cref, yes = range(n, n + 8)

        def lo(l, *p):
            return {'l': l, 'p': list(p)}

        def mv(l, *p):
            return {'k': 'move', 'pl': lo(l, *p)}

        def eq(l, rv):
            return {'s': '=', 'pl': l if isinstance(l, dict) else lo(l), 'rv': rv, 'sp': sp}
        base_ = len(blocks)
        head, sw, some, test, hit, none = range(base_, base_ + 6)

        def blk(st, term):
            blocks.append({'cleanup': False, 'st': st, 'term': dict(term, sp=sp)})
        blk([eq(ref, {'r': 'ref', 'mut': True, 'pl': lo(t['args'][0]['pl']['l'], '*')})],
            {'t': 'call', 'f': {'k': 'const', 'fn': {'path': 'std::iter::Iterator::next', 'args': [it], 'resolved': 'std::iter::Iterator::next', 'local': False, 'krate': 'core', 'trait': 'std::iter::Iterator'}},
             'args': [mv(ref)], 'dest': lo(nxt), 'destty': opt, 'to': sw, 'fsp': sp})
        blk([eq(dis, {'r': 'discr', 'pl': lo(nxt), 'adt': 'std::option::Option', 'variants': [[0, 'None'], [1, 'Some']]})],
            {'t': 'switch', 'a': mv(dis), 'ty': 'isize', 'arms': [[1, some]], 'else': none})
        blk([eq(elt, {'r': 'use', 'a': mv(nxt, ['v', 'Some'], ['f', '0'])}), eq(eref, {'r': 'ref', 'mut': False, 'pl': lo(elt)}),
             eq(tup, {'r': 'agg', 'kind': 'tuple', 'ops': [mv(eref) if find else mv(elt)]}), eq(cref, {'r': 'ref', 'mut': True, 'pl': t['args'][1]['pl']})],
            {'t': 'call', 'f': {'k': 'const', 'fn': {'path': 'std::ops::FnMut::call_mut', 'args': [clo], 'resolved': clo['closure'], 'local': True, 'krate': 'typical', 'trait': 'std::ops::FnMut'}},
             'args': [mv(cref), mv(tup)], 'dest': lo(yes), 'destty': 'bool', 'to': test, 'fsp': sp})
        stop = not fn['path'].endswith('all')
        blk([], {'t': 'switch', 'a': mv(yes), 'ty': 'bool', 'arms': [[0, head if stop else hit]], 'else': hit if stop else head})

        def res(v):
            if find:
                return {'r': 'agg', 'kind': 'adt', 'adt': 'std::option::Option', 'variant': 'Some' if v else 'None', 'fields': ['0'] * v, 'ops': [mv(elt)] * v}
            return {'r': 'use', 'a': {'k': 'const', 'ty': 'bool', 'val': bool(v) == stop}}
        blk([eq(t['dest'], res(1))], {'t': 'goto', 'to': t['to']})
        blk([eq(t['dest'], res(0))], {'t': 'goto', 'to': t['to']})
        b['term'] = {'t': 'goto', 'to': head, 'sp': sp}


class Prog:
    def __init__(self, path):
        j = json.load(open(path))
        self.j = j
        for f in j['fns']:
            box_contents(f)
            cursor_loops(f)
        self.raw = {f['name']: f for f in j['fns']}
        self._fns = {}
        self.consts = {c['name']: c for c in j['consts']}
        self.adts = {a['name']: a for a in j['adts']}
        self.enums = dict(BUILTIN_ENUMS)
        for a in j['adts']:
            if a['enum']:
                self.enums[a['name']] = tuple(v[0] for v in a['variants'])
        self.calls = {}
        for f in j['fns']:
            cs = self.calls.setdefault(f['name'], set())
            for b in f['blocks']:
                if b['cleanup']:
                    continue
                t = b['term']
                ops = []
                if t['t'] == 'call':
                    ops += [t['f']] + t['args']
                for s in b['st']:
                    if s['s'] == '=':
                        r = s['rv']
                        ops += [r[k] for k in ('a', 'b') if k in r] + r.get('ops', [])
                        if r.get('kind') == 'closure' and r['r'] == 'agg':
                            cs.add(r['closure'])
                for o in ops:
                    if 'fn' in o and o['fn'].get('resolved'):
                        cs.add(o['fn']['resolved'])
        self._rec = None
        self._subs = None

    def fn(self, name):
        if name not in self._fns:
            if name not in self.raw:
                raise Fail('function %s not found' % name)
            self._fns[name] = Fn(self.raw[name])
        return self._fns[name]

    def has(self, name):
        return name in self.raw

    def subcommands(self):
        """the names the program gives to the commands of its command line"""
        if self._subs is None:
            self._subs = []
            for f in self.raw.values():
                if not any('SubCommand' in str(b['term'].get('f', {}).get('fn', {}).get('path', '')) for b in f['blocks'] if b['term']['t'] == 'call'):
                    continue
                defs = {}
                for b in f['blocks']:
                    for x in b['st']:
                        if x['s'] == '=' and not x['pl']['p']:
                            defs.setdefault(x['pl']['l'], []).append(x['rv'])
                for b in f['blocks']:
                    t = b['term']
                    if t['t'] != 'call' or not re.search(r'SubCommand.*::with_name$', str(t['f'].get('fn', {}).get('path', ''))):
                        continue
                    o = t['args'][0]
                    for _ in range(8):
                        if o['k'] == 'const' or len(defs.get(o['pl']['l'], ())) != 1:
                            break
                        rv = defs[o['pl']['l']][0]
                        o = rv['a'] if 'a' in rv else {'k': 'copy', 'pl': rv['pl']} if 'pl' in rv else {'k': 'copy', 'pl': {'l': -1}}
                    if o['k'] == 'const' and isinstance(o.get('val'), str):
                        self._subs.append(o['val'])
                    else:
                        self._subs.append(None)
        return self._subs

    def reach(self, names):
        seen = set()
        st = list(names)
        while st:
            x = st.pop()
            if x in seen or x not in self.raw:
                continue
            seen.add(x)
            st.extend(self.calls.get(x, ()))
        return seen

    def recursive(self, name):
        if self._rec is None:
            self._rec = {}
        if name not in self._rec:
            self._rec[name] = name in self.reach(self.calls.get(name, ()))
        return self._rec[name]

    def derived(self, name):
        return self.raw.get(name, {}).get('derived', False)


# ---------------------------------------------------------------- the analysis
class State:
    __slots__ = ('store', 'guard')

    def __init__(self, store, guard):
        self.store = store
        self.guard = guard

    def fork(self):
        return State(dict(self.store), self.guard)


TRANSPARENT = {
    'Clone::clone', 'ToOwned::to_owned', 'Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref',
    'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'String::as_str', 'Vec::as_slice', 'Vec::as_mut_slice',
    'hint::must_use', 'Option::as_ref', 'Option::as_deref', 'Option::as_mut', 'Option::as_deref_mut',
    'Option::cloned', 'Option::copied', 'Result::as_ref', 'Result::as_mut', 'Iterator::cloned', 'Iterator::copied', 'Iterator::by_ref',
    'slice::iter', 'slice::iter_mut', 'Iterator::peekable', 'Path::new', 'Path::to_path_buf',
    'PathBuf::as_path', 'Box::new', 'Rc::new', 'Arc::new', 'BTreeSet::iter', 'HashSet::iter',
    'Cow::into_owned', 'slice::to_vec', 'Iterator::fuse', 'Vec::into_boxed_slice', 'slice::into_vec', 'Path::as_os_str',
    'String::into_boxed_str', 'mem::drop_nothing', 'convert::identity', 'Option::iter', 'str::to_owned',
    'Iterator::into_iter', 'Vec::into_iter', 'String::into_string', 'Cow::to_mut', 'Path::as_path', 'OsStr::to_os_string',
}
MAP_ITER = {'BTreeMap::iter', 'HashMap::iter', 'BTreeMap::iter_mut', 'HashMap::iter_mut'}
STRLIKE = re.compile(
    r"^(&|mut |'\w+ )*(str|std::string::String|std::borrow::Cow<.*str>|std::path::Path|std::path::PathBuf|"
    r"std::ffi::OsStr|std::ffi::OsString|std::boxed::Box<str>|std::rc::Rc<str>)$")
RUNS_CLOSURE_ON_ELEM = {
    'Iterator::for_each', 'Iterator::try_for_each', 'Iterator::any', 'Iterator::all',
    'Iterator::find', 'Iterator::position', 'Iterator::fold', 'Iterator::try_fold', 'Iterator::find_map', 'Iterator::collect',
    'Iterator::count', 'Iterator::max', 'Iterator::min', 'Iterator::last', 'Iterator::sum', 'Extend::extend', 'Iterator::join', 'Iterator::max_by_key', 'Iterator::min_by_key',
}
LAZY = {
    'Iterator::map', 'Iterator::filter', 'Iterator::filter_map', 'Iterator::flat_map', 'Iterator::enumerate',
    'Iterator::zip', 'Iterator::chain', 'Iterator::rev', 'Iterator::skip', 'Iterator::take', 'Iterator::step_by',
    'Iterator::flatten', 'Iterator::take_while', 'Iterator::skip_while', 'Iterator::map_while', 'Iterator::inspect',
    'Iterator::scan', 'BTreeMap::values', 'BTreeMap::keys', 'BTreeMap::values_mut', 'HashMap::values', 'HashMap::keys',
    'HashMap::values_mut', 'BTreeMap::into_values', 'BTreeMap::into_keys',
}
PANICS = ('core::panicking::', 'std::rt::panic', 'std::rt::begin_panic', 'std::panicking', 'core::option::expect_failed',
          'core::result::unwrap_failed')


def bool_term(b):
    return ('const', bool(b))


class Analyzer:
    def __init__(self, prog, opaque=None, inline=None, writes_ok=True, monitors=None, maxst=160, keep=None,
                 track_results=False, branch_hook=None, latch_hook=None, head_hook=None, errty='Vec<error::Error>', skip_fmt=False):
        self.p = prog
        self.opaque = opaque or (lambda n: False)
        self.writes_ok = writes_ok
        self.maxst = maxst
        self.mods = {}
        self.partpaths = {}
        self.dropping, self.found = set(), {}
        self.parts = {}
        self.demoted = {}
        self.entry_open = {}
        self.next_sites = {}
        self.track_results = track_results
        self.take_clears = False
        self.build_strings = False
        self.exact = ()     # roots whose every value is kept apart at joins
        self.branch_hook = branch_hook
        self.latch_hook = latch_hook
        self.head_hook = head_hook
        self.errty = errty
        self.fids = {}
        self.events = []
        self.latches = {}
        self.writer = None
        self.quiet = set()  # iterator loops a head hook takes no notice of
        self.heads = {}
        self.entries = {}
        self.nest = {}
        self.introots = set()
        self.monitors = monitors
        self.loopstack = ()
        self.fnstack = []
        self.inlined = set()
        self.nblocks = 0
        self.imprecise = 0
        self.skip_fmt = skip_fmt

    # ------------------------------------------------ utilities
    def fid(self, key):
        return self.fids.setdefault(key, len(self.fids))

    def note_write(self, root, kind, path=()):
        if kind == 'part' and (root[0] != 'l' or any(x[0] not in 'fv' for x in path)):
            kind = 'assign'
        for L in self.loopstack:
            m = self.mods.setdefault(L, {})
            old = m.get(root)
            new = kind if old is None else ('assign' if 'assign' in (old, kind) else 'mut' if 'mut' in (old, kind) else 'part')
            if kind == 'part':
                ps = self.partpaths.setdefault((L, root), set())
                if path not in ps:
                    ps.add(path)
                    self.grew = True
            if old != new:
                m[root] = new
                self.grew = True

    def event(self, kind, st, **kw):
        e = dict(kind=kind, guard=st.guard, loops=self.loopstack, fn=self.fnstack[-1][0].name,
                 site=self.fnstack[-1][0].sp(self.fnstack[-1][2]), fid=self.fnstack[-1][1],
                 bb=self.fnstack[-1][2], stack=tuple(f[0].name for f in self.fnstack))
        e.update(kw)
        e['mon'] = {k[1:]: v for k, v in st.store.items() if k[0] == 'mon'}
        if self.monitors:
            self.monitors(e, st)
        self.events.append(e)
        return e

    # ------------------------------------------------ store
    def rd_root(self, st, root):
        v = st.store.get(root)
        if v is None:
            if root[0] == 'heap':
                return root[1]
            return ('undef', root)
        return v

    def project(self, v, el):
        if el[0] == 'f':
            n = el[1]
            if is_t(v, 'agg'):
                for k, x in v[3]:
                    if k == n:
                        return x
                return ('vf', v, '?', n)
            if is_t(v, 'tuple'):
                return v[1][int(n)] if n.isdigit() and int(n) < len(v[1]) else ('f', v, n)
            if is_t(v, 'closure'):
                return v[2][int(n)] if n.isdigit() and int(n) < len(v[2]) else ('f', v, n)
            if is_t(v, 'as'):
                return ('vf', v[1], v[2], n)
            if is_t(v, 'with'):
                if v[2] and v[2][0] == el:
                    if len(v[2]) == 1:
                        return v[3]
                    return ('with', self.project(v[1], el), v[2][1:], v[3])
                return self.project(v[1], el)
            if is_t(v, 'mut'):
                return ('f', v, n)
            return ('f', v, n)
        if el[0] == 'v':
            if is_t(v, 'agg'):
                return v
            if is_t(v, 'with'):
                return v
            return ('as', v, el[1])
        if el[0] == 'i':
            if is_t(v, 'array') and is_t(el[1], 'const') and isinstance(el[1][1], int) and el[1][1] < len(v[1]):
                return v[1][el[1][1]]
            return self.index(v, el[1])
        if el[0] == 'ci':
            if is_t(v, 'array') and not el[2] and el[1] < len(v[1]):
                return v[1][el[1]]
            if el[2]:
                return ('idx', v, lin_add(('call', 'len', (v,)), ('const', el[1]), -1))
            return ('idx', v, ('const', el[1]))
        if el[0] == 'sub':
            return ('slice', v, el[1:])
        return ('?', v)

    def index(self, v, i):
        if is_t(i, 'elem') and is_t(i[1], 'agg') and i[1][1].endswith('Range') and i[1][2] == 'Range':
            d = dict(i[1][3])
            if d.get('start') == ('const', 0) and is_t(d.get('end'), 'call') and d['end'][1] == 'len' and base(d['end'][2][0]) == base(v):
                return ('elem', v, i[2])
        return ('idx', v, i)

    def read(self, st, loc):
        root, path = loc
        v = self.rd_root(st, root)
        for i, el in enumerate(path):
            if is_t(v, 'ref'):
                v = self.read(st, (v[1], v[2]))
            v = self.project(v, el)
        return v

    def upd(self, v, path, val):
        if not path:
            return val
        el = path[0]
        if el[0] == 'v':
            return self.upd(v, path[1:], val)
        if el[0] == 'f' and is_t(v, 'agg'):
            return ('agg', v[1], v[2], tuple((k, self.upd(x, path[1:], val) if k == el[1] else x) for k, x in v[3]))
        if el[0] == 'f' and is_t(v, 'tuple') and el[1].isdigit() and int(el[1]) < len(v[1]):
            k = int(el[1])
            return ('tuple', tuple(self.upd(x, path[1:], val) if i == k else x for i, x in enumerate(v[1])))
        return ('with', v, tuple(x for x in path if x[0] != 'v'), val)

    def write(self, st, loc, val, kind='assign'):
        root, path = loc
        if path:
            val = self.upd(self.rd_root(st, root), path, val)
        st.store[root] = val
        self.note_write(root, kind, path)
        if root[0] in ('heap',):
            self.event('store', st, root=strip(root[1]), path=path, val=val)

    def place(self, st, fid, p):
        """-> location (root, path)"""
        loc = (('l', fid, p['l']), ())
        for e in p['p']:
            if e == '*':
                v = self.read(st, loc)
                if is_t(v, 'ref'):
                    loc = (v[1], v[2])
                else:
                    loc = (('heap', v), ())
            elif e[0] == 'i':
                idx = self.read(st, (('l', fid, e[1]), ()))
                loc = (loc[0], loc[1] + (('i', idx),))
            else:
                loc = (loc[0], loc[1] + (tuple(e),))
        return loc

    def res(self, st, t, depth=0):
        """resolve storage references inside a term"""
        if not isinstance(t, tuple) or depth > 40:
            return t
        if is_t(t, 'ref'):
            return self.res(st, self.read(st, (t[1], t[2])), depth + 1)
        if t and t[0] in ('const', 'cname', 'param', 'fnitem'):
            return t
        if is_t(t, 'closure'):
            return t
        if not any(isinstance(x, tuple) for x in t):
            return t
        n = tuple(self.res(st, x, depth + 1) if isinstance(x, tuple) else x for x in t)
        return n if n != t else t

    # ------------------------------------------------ operands, rvalues
    def const(self, o):
        if 'fn' in o:
            f = o['fn']
            return ('fnitem', f['resolved'] if f['local'] else f['path'], json.dumps(f, sort_keys=True))
        v = o.get('val')
        if isinstance(v, dict) and 'zst' in v:
            z = v['zst']
            if isinstance(z, dict) and 'closure' in z:
                return ('closure', z['closure'], ())
            if z == '()':
                return ('tuple', ())
            return ('zst', str(z))
        if isinstance(v, dict) and 'adt' in v:
            def adt(x):
                if isinstance(x, dict):
                    fs = tuple((n, adt(y)) for n, y in x['fields'])
                    return ('agg', x['adt'], x['variant'], fs) if all(y is not None for n, y in fs) else None
                return ('const', x) if isinstance(x, (int, str, bool)) else None
            x = adt(v)
            if x is not None:
                return x
        if isinstance(v, (int, str, bool)):
            if o.get('ty') == 'char' and isinstance(v, str):
                return ('const', ord(v))
            return ('const', v)
        if isinstance(v, list):
            nm = o.get('name')
            if nm:
                return ('cname', nm, tuple(v) if all(isinstance(x, (str, int)) for x in v) else None)
            def conv(x):
                return ('array', tuple(conv(y) for y in x)) if isinstance(x, list) else ('const', x)
            return conv(v)
        if o.get('name'):
            return ('cname', o['name'], None)
        return ('unk', o.get('ty') if isinstance(o.get('ty'), str) else 'x')

    def operand(self, st, fid, o):
        if o['k'] in ('copy', 'move'):
            return self.read(st, self.place(st, fid, o['pl']))
        if o['k'] == 'const':
            return self.const(o)
        return ('unk',)

    def cmp(self, st, op, a, b):
        a, b = self.res(st, a), self.res(st, b)
        for x in (a, b):
            if is_t(x, 'isv') or is_t(x, 'not') or is_t(x, 'cmp') or (is_t(x, 'const') and isinstance(x[1], bool)):
                # boolean equality
                if op in ('Eq', 'Ne'):
                    o = b if x is a else a
                    if is_t(x, 'const'):
                        pos = x[1] == (op == 'Eq')
                        return o if pos else self.neg(o)
        if is_t(a, 'const') and is_t(b, 'const') and isinstance(a[1], str) != isinstance(b[1], int):
            x, y = a[1], b[1]
            return bool_term({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op])
        d = lin_add(a, b, -1)
        rng = {'Eq': ((0, 0),), 'Ne': ((-INF, -1), (1, INF)), 'Lt': ((-INF, -1),), 'Le': ((-INF, 0),),
               'Gt': ((1, INF),), 'Ge': ((0, INF),)}[op]
        l = num_lit(d, rng)
        if l is True or l is False:
            return bool_term(l)
        return ('lit', l[0], l[1])

    def neg(self, t):
        if is_t(t, 'const'):
            return bool_term(not t[1])
        if is_t(t, 'not'):
            return t[1]
        if is_t(t, 'lit'):
            a, vs = t[1], t[2]
            if a[0] == 'n':
                return ('lit', a, iv_and(iv_not(vs), universe(a)))
            u = universe(a)
            return ('lit', a, u - vs)
        return ('not', t)

    def lits(self, st, t, want):
        """literal for: boolean term t == want"""
        t = self.res(st, t)
        if not want:
            t = self.neg(t)
        if is_t(t, 'const'):
            return bool(t[1])
        if is_t(t, 'lit'):
            return (t[1], t[2])
        if is_t(t, 'not'):
            return (('b', t[1]), frozenset([False]))
        return (('b', t), frozenset([True]))

    def isv(self, st, x, adt, variants):
        """boolean term: x is one of the variants"""
        x = self.res(st, x)
        if is_t(x, 'agg'):
            return bool_term(x[2] in variants)
        a = ('is', x)
        UNIV.setdefault(x, frozenset(self.p.enums.get(adt, ())))
        return ('lit', a, frozenset(variants))

    def split(self, st, t):
        """[(state, bool)] for a boolean term"""
        out = []
        for w in (True, False):
            l = self.lits(st, t, w)
            if l is False:
                continue
            g = dnf_add(st.guard, l) if l is not True else st.guard
            if not g:
                continue
            s = st.fork()
            s.guard = g
            if l is not True and g != st.guard:
                self.on_lit(s, l)
            out.append((s, w))
        return out

    def is_num(self, ty):
        return ty in ('usize', 'u64', 'u32', 'u8', 'u16', 'i32', 'i64', 'isize', 'char', 'u128', 'i8', 'i16')

    def rvalue(self, st, fid, r, fn):
        k = r['r']
        if k == 'use':
            return self.operand(st, fid, r['a'])
        if k in ('ref', 'raw'):
            loc = self.place(st, fid, r['pl'])
            if loc[0][0] == 'heap' and loc[0] not in st.store:
                v = self.read(st, loc)
                if r.get('mut'):
                    return ('ref', loc[0], loc[1])
                return v
            if not r.get('mut') and not loc[1]:
                v = self.rd_root(st, loc[0])
                if is_t(v, 'ref'):
                    return v  # & of a reference: transparent
            return ('ref', loc[0], loc[1])
        if k == 'bin':
            a, b = self.operand(st, fid, r['a']), self.operand(st, fid, r['b'])
            op = r['op']
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return self.cmp(st, op, a, b)
            a, b = self.res(st, a), self.res(st, b)
            if op.startswith('Add'):
                v = lin_add(a, b)
            elif op.startswith('Sub'):
                v = lin_add(a, b, -1)
            elif op.startswith('Mul') and (is_t(a, 'const') or is_t(b, 'const')) :
                if is_t(a, 'const'):
                    a, b = b, a
                d, c = to_lin(a)
                v = mk_lin({kk: vv * b[1] for kk, vv in d.items()}, c * b[1])
            elif op in ('BitAnd', 'BitOr', 'BitXor') and (self.boolish(a) or self.boolish(b) or r.get('bool')):
                if op == 'BitAnd':
                    for x, y in ((a, b), (b, a)):
                        if is_t(x, 'const'):
                            return y if x[1] else bool_term(False)
                if op == 'BitOr':
                    for x, y in ((a, b), (b, a)):
                        if is_t(x, 'const'):
                            return bool_term(True) if x[1] else y
                v = ('call', op, (a, b))
            else:
                if is_t(a, 'const') and is_t(b, 'const') and op.startswith('Shl'):
                    v = ('const', a[1] << b[1])
                else:
                    v = ('call', op.replace('WithOverflow', ''), (a, b))
            if op.endswith('WithOverflow'):
                return ('tuple', (v, ('call', 'overflow', (('const', op[:3]), a, b))))
            return v
        if k == 'un':
            a = self.res(st, self.operand(st, fid, r['a']))
            if r['op'] == 'Not':
                return self.neg(a)
            if r['op'] == 'PtrMetadata':
                return self.length(a)
            if r['op'] == 'Neg' and is_t(a, 'const'):
                return ('const', -a[1])
            return ('call', r['op'], (a,))
        if k == 'discr':
            x = self.res(st, self.read(st, self.place(st, fid, r['pl'])))
            vs = {v[0]: v[1] for v in r['variants']}
            UNIV.setdefault(x, frozenset(vs.values()))
            return ('discr', x, tuple(sorted(vs.items())))
        if k == 'cast':
            a = self.operand(st, fid, r['a'])
            if r['kind'] == 'IntToInt':
                if r['ty'] in ('usize', 'u64', 'u128', 'i128', 'u32'):
                    return a
                return ('call', 'cast:' + str(r['ty']), (a,))
            return a
        if k == 'agg':
            ops = [self.operand(st, fid, o) for o in r['ops']]
            if r['kind'] == 'adt':
                return ('agg', r['adt'], r['variant'], tuple(zip(r['fields'], ops)))
            if r['kind'] == 'tuple':
                return ('tuple', tuple(ops))
            if r['kind'] == 'closure':
                return ('closure', r['closure'], tuple(ops))
            return ('array', tuple(ops))
        if k == 'repeat':
            return ('call', 'repeat', (self.operand(st, fid, r['a']),))
        return ('unk', k)

    def boolean(self, t):
        return self.boolish(t) or is_t(t, 'call') or is_t(t, 'callm') or is_t(t, 'phi') or is_t(t, 'param') or is_t(t, 'f')

    def boolish(self, t):
        return is_t(t, 'lit') or is_t(t, 'not') or (is_t(t, 'const') and isinstance(t[1], bool))

    def length(self, x):
        if is_t(x, 'array'):
            return ('const', len(x[1]))
        if is_t(x, 'const') and isinstance(x[1], str):
            return ('const', len(x[1].encode()))
        if is_t(x, 'cname') and x[2] is not None:
            return ('const', len(x[2]))
        return ('call', 'len', (x,))

    # ------------------------------------------------ merging
    def key_of(self, store):
        return frozenset((k, base(v) if is_t(v, 'mut') and k not in self.exact else v) for k, v in store.items())

    def merge(self, fn, fid, b, sts):
        live, addr = fn.live[b], fn.addr
        groups = {}
        for st in sts:
            for k in [k for k in st.store if k[0] == 'l' and k[1] == fid and k[2] not in live and k[2] not in addr]:
                del st.store[k]
            groups.setdefault(self.key_of(st.store), []).append(st)
        out = []
        for g in groups.values():
            st = g[0]
            if len(g) > 1:
                guard = st.guard
                for o in g[1:]:
                    guard = guard | o.guard
                    for k, v in o.store.items():
                        if st.store[k] != v:
                            st.store[k] = ('mut', base(v), ('j', fid, b))
                st.guard = dnf_simplify(guard)
            out.append(st)
        if len(out) > self.maxst:
            self.imprecise += 1
            st = out[0]
            guard = st.guard
            for o in out[1:]:
                guard = guard | o.guard
                for k in list(st.store):
                    if st.store[k] != o.store.get(k):
                        st.store[k] = ('join', (fid, b), k)
                for k in o.store:
                    if k not in st.store:
                        st.store[k] = ('join', (fid, b), k)
            st.guard = dnf_simplify(guard)
            out = [st]
        return out

    # ------------------------------------------------ fallible results
    def result_made(self, st, t, ret):
        if not self.track_results or t is None:
            return
        ty = self.fnstack[-1][0].locals[t['dest']['l']]
        if isinstance(ty, str) and ty.startswith('std::result::Result<') and (
                ty.endswith('std::io::Error>') or ty.endswith('error::Error>') or ty.endswith('error::Error>>')):
            self.write(st, (('mon', 'res', strip(ret)), ()), ('const', False))

    def result_used(self, st, val):
        if not self.track_results:
            return
        open_ = [k for k, v in st.store.items() if k[:2] == ('mon', 'res') and v == ('const', False)]
        if open_:
            val = strip(val)
            for k in open_:
                if contains(val, lambda x: x == k[2] or (is_t(x, 'vf') and x[1] == k[2] and x[2] == 'Err')):
                    self.write(st, (k, ()), ('const', True))

    def on_lit(self, st, l):
        if self.track_results and l[0][0] == 'is' and l[1] == frozenset(['Ok']):
            k = ('mon', 'res', strip(l[0][1]))
            if k in st.store:
                self.write(st, (k, ()), ('const', True))
        if self.branch_hook:
            self.branch_hook(self, st, l)

    # ------------------------------------------------ loop heads
    def finite(self, v):
        return is_t(v, 'const') and (isinstance(v[1], bool) or v[1] == '?') or is_t(v, 'call') and v[1] == 'len' and is_t(v[2][0], 'param') or is_t(v, 'rel')

    # text cursors: ('cur', text, n, indexed) stands before the n-th character; ('off', text, n) is its byte offset
    def relative(self, st, v, curs):
        """a byte offset at a fixed distance from a cursor, as ('rel', cursor root, distance)"""
        d, c = to_lin(v) if is_t(v, 'lin') or is_t(v, 'off') else ({}, 0)
        if len(d) == 1:
            (x, n), = d.items()
            if is_t(x, 'off') and n == 1 and c >= 0:
                k = x[2]
                def narrow(a, w):
                    return a == ('n', ('idx', ('chars', x[1]), k)) and w[0][0] >= 0 and w[-1][1] < 128 or \
                        a[0] == 'b' and w == frozenset([True]) and is_t(a[1], 'call') and '::is_ascii' in a[1][1] and a[1][2] == (('idx', ('chars', x[1]), k),)
                while c and all(any(narrow(a, w) for a, w in cj) for cj in st.guard):
                    k, c = lin_add(k, ('const', 1)), c - 1
                if not c:
                    for root, cur in curs:
                        if cur[1] == x[1]:
                            dd = lin_add(k, cur[2], -1)
                            if is_t(dd, 'const') and abs(dd[1]) <= 2:
                                return ('rel', root, dd[1])
        return v

    def cursors(self, st):
        return [(r, v) for r, v in st.store.items() if is_t(v, 'cur')]

    def cur_step(self, st, ref, advance):
        """next() or peek() of a text cursor, or None if it is none"""
        it = last = ref
        while is_t(it, 'ref'):
            last = it
            it = self.read(st, (it[1], it[2]))
        if not is_t(it, 'cur') or not is_t(last, 'ref'):
            return None
        S, N, idx = it[1:]
        n = ('call', 'len', (('chars', S),))
        out = []
        for s, w in self.split(st, self.cmp(st, 'Gt', n, N)):
            if w:
                ch = ('idx', ('chars', S), N)
                e = ('tuple', (('off', S, N), ch)) if idx else ch
                if advance:
                    self.write(s, (last[1], last[2]), ('cur', S, lin_add(N, ('const', 1)), idx))
                out.append((s, ('agg', 'std::option::Option', 'Some', (('0', e),)), last))
            else:
                out.append((s, ('agg', 'std::option::Option', 'None', ()), last))
        return out

    def partition(self, st, L, bools=False):
        """the fixed distances from a cursor (and truth values, if asked for) the cells changed in a loop have"""
        curs = self.cursors(st)
        dem = self.demoted.get(L, ())
        out = []
        for root in self.mods.get(L, {}):
            if root in st.store and root not in dem:
                v = self.relative(st, st.store[root], curs)
                if is_t(v, 'rel') or bools and root[0] != 'mon' and is_t(v, 'const') and isinstance(v[1], bool):
                    out.append((root, v))
        return tuple(sorted(out, key=repr))

    def part(self, v, path):
        """the part of a constructed value at a path of fields, None if it was not constructed here"""
        for el in path:
            if el[0] == 'f':
                d = dict(v[3]) if is_t(v, 'agg') else dict((str(i), x) for i, x in enumerate(v[1])) if is_t(v, 'tuple') else {}
                v = d.get(el[1])
            elif not is_t(v, 'agg') or v[2] != el[1]:
                v = None
            if v is None:
                return None
        return v

    def parted(self, v, paths):
        return all(self.part(v, p) is not None for p in paths)

    def widen(self, sts, L):
        m = self.mods.get(L, {})
        self.nest[L] = tuple(x for x in self.loopstack if x != L)
        if self.track_results:
            self.entry_open[L] = {k for s in sts for k, v in s.store.items() if k[:2] == ('mon', 'res') and v == ('const', False)}
        dem = self.demoted.setdefault(L, set())
        vals = self.parts.get(L, ())
        out = []
        def made(cell, v, st):
            if is_t(v, 'rel'):
                cur = st.store[v[1]]
                return ('off', cur[1], lin_add(cur[2], ('const', v[2])))
            return v
        for st in sts:
            fin = {}
            self.entries.setdefault(L, []).append(st.fork())
            curs = self.cursors(st)
            for root, kind in m.items():
                if root in st.store:
                    v = self.relative(st, st.store[root], curs)
                    if root not in dem and self.finite(v):
                        fin[root] = v
                    elif is_t(v, 'cur'):
                        st.store[root] = ('cur', v[1], ('phi', L, root), v[3])
                    elif root in self.introots:
                        st.store[root] = ('phi', L, root)
                    elif kind == 'mut':
                        st.store[root] = ('mut', base(v), ('loop', L))
                    elif kind == 'part' and self.parted(v, self.partpaths[L, root]):
                        for path in sorted(self.partpaths[L, root], key=repr):
                            v = self.upd(v, path, ('mut', base(self.part(v, path)), ('loop', L)))
                        st.store[root] = v
                    elif root[0] == 'heap':
                        del st.store[root]
                    elif root[0] == 'mon':
                        st.store[root] = ('const', '?')
                    else:
                        st.store[root] = ('phi', L, root)
            out.append(st)
            for k, v in fin.items():
                if is_t(v, 'rel'):
                    st.store[k] = made(k, v, st)
            if fin:
                seen = {tuple(sorted(fin.items(), key=repr))}
                for val in vals:
                    d = dict(fin)
                    d.update({k: x for k, x in val if k in fin})
                    key = tuple(sorted(d.items(), key=repr))
                    if key in seen:
                        continue
                    seen.add(key)
                    s2 = st.fork()
                    s2.store.update({k: made(k, x, st) for k, x in d.items()})
                    out.append(s2)
        if self.head_hook:
            for s in out:
                self.head_hook(self, s, L)
        return out

    def settle(self, st, L):
        """the states in which the truth values the loop changes are settled"""
        m = self.mods.get(L, {})
        dem = self.demoted.setdefault(L, set())
        sts = [st]
        for root in sorted(m, key=repr):
            if root in dem:
                continue
            nxt = []
            for s in sts:
                v = s.store.get(root)
                if v is not None and (is_t(v, 'lit') or is_t(v, 'not')):
                    for s2, w in self.split(s, v):
                        s2.store[root] = bool_term(w)
                        nxt.append(s2)
                else:
                    nxt.append(s)
            sts = nxt
        return sts

    def latch(self, st, L):
        m = self.mods.get(L, {})
        dem = self.demoted.setdefault(L, set())
        sts = self.settle(st, L)
        for st in sts:
            if self.latch_hook:
                self.latch_hook(self, st, L)
            if self.track_results:
                for k, v in st.store.items():
                    if k[:2] == ('mon', 'res') and v == ('const', False) and k not in self.entry_open.get(L, ()):
                        self.event('lost_result', st, res=k[2])
        for s in sts:
            d = {}
            curs = self.cursors(s)
            for root in m:
                if root in dem or root not in s.store:
                    continue
                v = self.relative(s, s.store[root], curs)
                if self.finite(v):
                    d[root] = v
                else:
                    dem.add(root)
                    self.grew = True
            if d:
                key = tuple(sorted(d.items(), key=repr))
                ps = self.parts.setdefault(L, set())
                if key not in ps:
                    if len(ps) > 48:
                        for r in d:
                            dem.add(r)
                    else:
                        ps.add(key)
                    self.grew = True

    # ------------------------------------------------ bodies
    def run_body(self, fn, fid, states):
        at = {0: states}
        rets = []
        outer = self.loopstack
        self.inlined.add(fn.name)
        for b in fn.rpo:
            sts = at.pop(b, None)
            if not sts:
                continue
            self.nblocks += 1
            hs = sorted(fn.loops_of(b), key=lambda h: fn.order[h])
            self.loopstack = outer + tuple((fid, h) for h in hs)
            if b in fn.loops:
                sts = self.widen(sts, (fid, b))
            sts = self.merge(fn, fid, b, sts)
            if b in fn.loops:
                self.heads[(fid, b)] = [s.fork() for s in sts]
            self.fnstack.append((fn, fid, b))
            for st in sts:
                for succ, s2 in self.exec_block(fn, fid, b, st):
                    if succ == 'ret':
                        rets.append(s2)
                    elif (b, succ) in fn.back:
                        self.latches.setdefault((fid, succ), []).append(s2)
                        self.latch(s2, (fid, succ))
                    else:
                        at.setdefault(succ, []).append(s2)
            self.fnstack.pop()
        self.loopstack = outer
        out = []
        for st in rets:
            rv = self.res(st, self.rd_root(st, ('l', fid, 0)))
            for k in [k for k in st.store if k[0] == 'l' and k[1] == fid]:
                del st.store[k]
            out.append((st, rv))
        # merge equal returns
        groups = {}
        for st, rv in out:
            groups.setdefault((self.key_of(st.store), rv), []).append(st)
        res = []
        for (k, rv), g in groups.items():
            st = g[0]
            guard = st.guard
            for o in g[1:]:
                guard = guard | o.guard
                for kk, v in o.store.items():
                    if st.store[kk] != v:
                        st.store[kk] = ('mut', base(v), ('jr', fid))
            st.guard = dnf_simplify(guard)
            res.append((st, rv))
        return res

    def exec_block(self, fn, fid, b, st, start=0):
        blk = fn.blocks[b]
        stmts = blk['st'][start:]
        for i, s in enumerate(stmts):
            if s['s'] == '=':
                v = self.rvalue(st, fid, s['rv'], fn)
                if is_t(v, 'call') and v[1] in ('BitAnd', 'BitOr', 'BitXor') and all(self.boolean(x) for x in v[2]):
                    out = []
                    for s1, w1 in self.split(st, v[2][0]):
                        for s2, w2 in self.split(s1, v[2][1]):
                            r = {'BitAnd': w1 and w2, 'BitOr': w1 or w2, 'BitXor': w1 != w2}[v[1]]
                            self.write(s2, self.place(s2, fid, s['pl']), bool_term(r))
                            out += self.exec_block(fn, fid, b, s2, start + i + 1)
                    return out
                self.write(st, self.place(st, fid, s['pl']), v)
            elif s['s'] == 'dead':
                st.store.pop(('l', fid, s['l']), None)
        t = blk['term']
        k = t['t']
        if k == 'goto':
            return [(t['to'], st)]
        if k == 'drop':
            return [(t['to'], st)]
        if k == 'return':
            return [('ret', st)]
        if k in ('unreachable', 'resume', 'other'):
            return []
        if k == 'switch':
            v = self.res(st, self.operand(st, fid, t['a']))
            return self.switch(st, v, t)
        if k == 'assert':
            c = self.operand(st, fid, t['a'])
            ops = [self.res(st, self.operand(st, fid, o)) for o in t['ops']]
            kind = t['kind']
            if kind == 'bounds':
                ok = self.cmp(st, 'Gt', ops[0], ops[1])
                self.event('assert', st, akind='bounds', ops=tuple(ops), ok=ok)
                parts = [s for s, w in self.split(st, ok) if w]
            elif kind.startswith('overflow'):
                if kind == 'overflow:Sub':
                    ok = self.cmp(st, 'Ge', ops[0], ops[1])
                else:
                    ok = None
                self.event('assert', st, akind=kind, ops=tuple(ops), ok=ok)
                parts = [s for s, w in self.split(st, ok) if w] if ok is not None else [st]
            else:
                self.event('assert', st, akind=kind, ops=tuple(ops), ok=None)
                parts = [st]
            return [(t['to'], s) for s in parts]
        if k == 'call':
            return self.call(fn, fid, b, st, t)
        raise Fail('terminator ' + k)

    def switch(self, st, v, t):
        out = []
        if t['ty'] == 'bool':
            arms = {bool(a[0]): a[1] for a in t['arms']}
            for s, w in self.split(st, v):
                out.append((arms.get(w, t['else']), s))
            return out
        if is_t(v, 'discr'):
            x = v[1]
            names = dict(v[2])
            if is_t(x, 'agg'):
                d = [kk for kk, n in names.items() if n == x[2]]
                for a in t['arms']:
                    if a[0] in d:
                        return [(a[1], st)]
                return [(t['else'], st)]
            a = ('is', x)
            by = {}
            rest = set(names.values())
            for arm in t['arms']:
                n = names.get(arm[0])
                if n is not None:
                    by.setdefault(arm[1], set()).add(n)
                    rest.discard(n)
            if rest:
                by.setdefault(t['else'], set()).update(rest)
            for to, ns in by.items():
                g = dnf_add(st.guard, (a, frozenset(ns)))
                if g:
                    s = st.fork()
                    s.guard = dnf_simplify(g)
                    if g != st.guard:
                        self.on_lit(s, (a, frozenset(ns)))
                    out.append((to, s))
            return out
        # integer / char
        by = {}
        used = []
        for arm in t['arms']:
            by.setdefault(arm[1], []).append((arm[0], arm[0]))
            used.append((arm[0], arm[0]))
        by.setdefault(t['else'], []).extend(iv_not(iv_norm(used)))
        for to, iv in by.items():
            l = num_lit(v, iv_norm(iv))
            if l is False:
                continue
            g = st.guard if l is True else dnf_add(st.guard, l)
            if g:
                s = st.fork()
                s.guard = g
                if l is not True and g != st.guard:
                    self.on_lit(s, l)
                out.append((to, s))
        return out

    # ------------------------------------------------ calls
    def call(self, fn, fid, b, st, t):
        f = t['f'].get('fn')
        args = [self.operand(st, fid, o) for o in t['args']]
        tys = []
        for o in t['args']:
            if o['k'] in ('copy', 'move') and not o['pl']['p']:
                tys.append(fn.locals[o['pl']['l']])
            else:
                tys.append(o.get('ty', '') if o['k'] == 'const' else '')
        if f is None:
            fv = self.operand(st, fid, t['f'])
            rets = self.call_value(st, fv, args, (fid, b))
        else:
            rets = self.call_fn(st, f, args, tys, (fid, b), t)
        if t['to'] is None:
            return []
        out = []
        for s, rv in rets:
            self.write(s, self.place(s, fid, t['dest']), rv)
            out.append((t['to'], s))
        return out

    def call_value(self, st, fv, args, site):
        """call a closure or function item"""
        fv = self.read(st, (fv[1], fv[2])) if is_t(fv, 'ref') else fv
        while is_t(fv, 'ref'):
            fv = self.read(st, (fv[1], fv[2]))
        if is_t(fv, 'closure'):
            if not self.p.has(fv[1]):
                return [(st, ('call', 'closure', tuple(self.res(st, a) for a in args)))]
            if any(fr[0].name == fv[1] for fr in self.fnstack):
                raise Fail('recursive closure ' + fv[1])
            return self.inline(st, fv[1], [fv] + list(args), site)
        if is_t(fv, 'fnitem'):
            f = json.loads(fv[2])
            return self.call_fn(st, f, list(args), [''] * len(args), site, None)
        self.event('call', st, f='indirect', path='indirect', args=tuple(self.res(st, a) for a in args), raw=tuple(args))
        return [(st, ('callm', 'indirect', tuple(self.res(st, a) for a in args), site))]

    def inline(self, st, name, args, site):
        fn = self.p.fn(name)
        fid = self.fid((site, name))
        for i, a in enumerate(args):
            st.store[('l', fid, i + 1)] = a
        if len(self.fnstack) > 30:
            raise Fail('inlining too deep')
        return self.run_body(fn, fid, [st])

    def call_fn(self, st, f, args, tys, site, t):
        if f['local']:
            name = f['resolved']
            if self.p.derived(name) and name.endswith('::clone'):
                return [(st, self.res(st, args[0]) if is_t(args[0], 'ref') else args[0])]
            if name.endswith('std::cmp::PartialEq>::eq') or name.endswith('std::cmp::PartialEq>::ne'):
                if self.opaque(name) or self.p.derived(name):
                    r = self.eq_term(st, args[0], args[1])
                    return [(st, r if name.endswith('eq') else self.neg(r))]
            m = re.match(r'<(.+) as std::convert::From<(.*)>>::from$', name)
            if m and self.opaque(name):
                return [(st, ('call', 'into:' + m.group(1), (self.res(st, args[0]),)))]
            rec = any(fr[0].name == name for fr in self.fnstack)
            if '{closure' in name and len(args) == 2 and short(f['path']) in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call') and self.p.has(name):
                tup = self.res(st, args[1]) if is_t(args[1], 'ref') else args[1]
                if is_t(tup, 'tuple'):
                    args = [args[0]] + list(tup[1])
            if not self.opaque(name) and not rec and self.p.has(name):
                return self.inline(st, name, args, site)
            return self.opaque_call(st, name, f, args, tys, site, t)
        return self.extern(st, f, args, tys, site, t)

    def opaque_call(self, st, name, f, args, tys, site, t=None):
        rargs = tuple(self.res(st, a) for a in args)
        w = self.writer(name) if self.writer else None
        if w is not None:  # a function that writes what it says to one of its arguments
            self.event('write', st, dst=strip(rargs[w]), pieces=(('c', name, rargs),), f=name)
            if is_t(args[w], 'ref'):
                old = self.read(st, (args[w][1], args[w][2]))
                self.write(st, (args[w][1], args[w][2]), ('mut', base(old), ('w',) + site), 'mut' if not args[w][2] else 'part')
            u = ('tuple', ())
            return [(st, u if self.p.raw[name]['locals'][0] == '()' else ('agg', 'std::result::Result', 'Ok', (('0', u),)))]
        roots = []
        for a, ty in zip(args, tys):
            if is_t(a, 'ref') and isinstance(ty, str) and ty.startswith('&mut'):
                roots.append((a[1], a[2]))
        ret = ('callm', name, tuple(base(r) for r in rargs), site) if roots else ('call', name, rargs)
        e = self.event('call', st, f=name, path=name, args=tuple(strip(r) for r in rargs), rargs=rargs, raw=tuple(args), ret=ret, local=True)
        self.result_made(st, t, ret)
        for root, path in roots:
            old = self.read(st, (root, path))
            self.write(st, (root, path), ('mut', base(old), ('c',) + site), 'mut' if not path else 'part')
            gk = ('mon', 'ne', base(old))
            if gk in st.store and st.store[gk] != ('const', True):
                self.write(st, (gk, ()), ('const', '?'))
        return [(st, ret)]

    def eq_term(self, st, a, b):
        a, b = self.res(st, a), self.res(st, b)
        if is_t(a, 'const') and is_t(b, 'const'):
            return bool_term(a[1] == b[1])
        # comparing with an enum constant that has no payload
        for x, y in ((a, b), (b, a)):
            if is_t(x, 'agg') and not x[3] and not is_t(y, 'agg') and x[1] in self.p.enums:
                return self.isv(st, y, x[1], {x[2]})
        if is_t(a, 'agg') and is_t(b, 'agg') and a[1] == b[1] and a[2] != b[2]:
            return bool_term(False)
        x, y = sorted([a, b], key=repr)
        if x == y:
            return bool_term(True)
        return ('call', 'eq', (x, y))

    def opt_split(self, st, x, adt):
        """case split on an Option/Result valued term -> [(state, variant, payload)]"""
        x = self.res(st, x) if not is_t(x, 'agg') else x
        if is_t(x, 'agg'):
            return [(st, x[2], x[3][0][1] if x[3] else None)]
        out = []
        a = ('is', x)
        UNIV.setdefault(x, frozenset(self.p.enums[adt]))
        for v in self.p.enums[adt]:
            g = dnf_add(st.guard, (a, frozenset([v])))
            if g:
                s = st.fork()
                s.guard = g
                if g != st.guard:
                    self.on_lit(s, (a, frozenset([v])))
                out.append((s, v, None if v == 'None' else ('vf', x, v, '0')))
        return out

    def iter_elem(self, st, it, L, site):
        """one generic element of an iterator term -> [(state, element)]; states that skip are dropped"""
        while is_t(it, 'ref'):
            it = self.read(st, (it[1], it[2]))
        if is_t(it, 'call') and it[1].startswith('Iterator::') or is_t(it, 'call') and it[1] in LAZY or is_t(it, 'call') and it[1] == 'map_iter':
            op = it[1]
            a = it[2]
            if op == 'map_iter':
                m = self.res(st, a[0])
                return [(st, ('tuple', (('key', m, L), ('val', m, L))))]
            if op.endswith('::values') or op.endswith('::values_mut') or op.endswith('::into_values'):
                return [(st, ('val', self.res(st, a[0]), L))]
            if op.endswith('::keys') or op.endswith('::into_keys'):
                return [(st, ('key', self.res(st, a[0]), L))]
            if op == 'Iterator::enumerate':
                pos = ('nth', L) if self.drops(a[0]) else ('pos', L)
                return [(s, e if e == ('stop',) else ('tuple', (pos, e))) for s, e in self.iter_elem(st, a[0], L, site)]
            if op == 'Iterator::map':
                out = []
                for s, e in self.iter_elem(st, a[0], L, site):
                    out += [(s, e)] if e == ('stop',) else self.call_value(s, a[1], [e], (site, 'map'))
                return out
            if op == 'Iterator::inspect':
                out = []
                for s, e in self.iter_elem(st, a[0], L, site):
                    out += [(s2, e) for s2, _ in self.call_value(s, a[1], [e], (site, 'inspect'))]
                return out
            if op == 'Iterator::filter':
                out = []
                for s, e in self.iter_elem(st, a[0], L, site):
                    if e == ('stop',):
                        out.append((s, e))
                        continue
                    for s2, r in self.call_value(s, a[1], [e], (site, 'filter')):
                        out += [(s3, e) for s3, w in self.split(s2, r) if w]
                return out
            if op == 'Iterator::filter_map':
                out = []
                for s, e in self.iter_elem(st, a[0], L, site):
                    if e == ('stop',):
                        out.append((s, e))
                        continue
                    for s2, r in self.call_value(s, a[1], [e], (site, 'fm')):
                        out += [(s3, p) for s3, v, p in self.opt_split(s2, r, 'std::option::Option') if v == 'Some']
                return out
            if op == 'Iterator::flat_map':
                out = []
                for s, e in self.iter_elem(st, a[0], L, site):
                    for s2, r in self.call_value(s, a[1], [e], (site, 'flat')):
                        out += self.iter_elem(s2, r, (L, 'in'), (site, 'flatin'))
                return out
            if op == 'Iterator::flatten':
                out = []
                for s, e in self.iter_elem(st, a[0], L, site):
                    out += self.iter_elem(s, e, (L, 'in'), (site, 'flatin'))
                return out
            if op == 'Iterator::zip':
                out = []
                for s, e in self.iter_elem(st, a[0], (L, 'z0'), site):
                    for s2, e2 in self.iter_elem(s, a[1], (L, 'z1'), site):
                        out.append((s2, ('tuple', (e, e2))))
                return out
            if op == 'Iterator::chain':
                return self.iter_elem(st.fork(), a[0], (L, 'c0'), site) + self.iter_elem(st.fork(), a[1], (L, 'c1'), site)
            if op == 'Iterator::take_while' and not contains(a[0], lambda x: is_t(x, 'call') and x[1] in ('Iterator::flat_map', 'Iterator::flatten', 'Iterator::chain')):
                out = []
                for s, e in self.iter_elem(st, a[0], L, site):
                    if e == ('stop',):
                        out.append((s, e))
                        continue
                    for s2, r in self.call_value(s, a[1], [e], (site, 'tw')):
                        out += [(s3, e if w else ('stop',)) for s3, w in self.split(s2, r)]
                return out
            if op in ('Iterator::skip', 'Iterator::take', 'Iterator::step_by', 'Iterator::rev', 'Iterator::take_while',
                      'Iterator::skip_while', 'Iterator::map_while', 'Iterator::scan'):
                return [(s, ('of', op, e, self.res(st, a[1]) if len(a) > 1 else None)) for s, e in self.iter_elem(st, a[0], L, site)]
        return [(st, ('elem', self.res(st, it), L))]

    def drops(self, it):
        """may the iterator leave out elements of what it goes through"""
        return contains(it, lambda x: is_t(x, 'call') and x[1] in DROPS)

    def iter_src(self, st, it):
        """source collection of an iterator term, for naming"""
        it = it if not is_t(it, 'ref') else self.read(st, (it[1], it[2]))
        while is_t(it, 'ref'):
            it = self.read(st, (it[1], it[2]))
        if is_t(it, 'call') and it[1] == 'Iterator::zip':
            return ('of', it[1], self.iter_src(st, it[2][0]), self.iter_src(st, it[2][1]))
        if is_t(it, 'call') and it[1] == 'Iterator::rev':
            return ('of', it[1], self.iter_src(st, it[2][0]), None)
        if is_t(it, 'call') and it[1] == 'Iterator::take_while':
            return self.iter_src(st, it[2][0])
        if is_t(it, 'call') and it[1] in PARTIAL and it[2]:
            return ('of', it[1], self.iter_src(st, it[2][0]), self.res(st, it[2][1]) if len(it[2]) > 1 else None)
        if is_t(it, 'call') and (it[1] in LAZY or it[1] == 'map_iter') and it[2]:
            return self.iter_src(st, it[2][0])
        return self.res(st, it)

    def extern(self, st, f, args, tys, site, t):
        path = f['path']
        sh = short(path)
        gen = [g if isinstance(g, str) else '' for g in f['args']]
        if sh.startswith('Arguments::') or sh == 'Argument::new_display' or path.startswith('core::fmt::rt::Argument'):
            return [(st, self.fmt(st, sh, args))]
        if sh == 'fmt::format':
            return [(st, ('fstr', self.pieces(st, args[0])))]
        if sh == 'ToString::to_string':
            if gen and STRLIKE.match(gen[0]):
                return [(st, self.res(st, args[0]))]
            if gen and gen[0] == 'char':
                return [(st, ('call', 'char_to_string', (self.res(st, args[0]),)))]
            x = self.res(st, args[0])
            if is_t(x, 'fstr'):
                return [(st, x)]
            return [(st, ('fstr', (('a', 'display', x),)))]
        if sh in TRANSPARENT:
            if sh == 'Path::new' or sh in ('Clone::clone', 'ToOwned::to_owned'):
                return [(st, self.res(st, args[0]))]
            return [(st, args[0])]
        if sh == 'IntoIterator::into_iter':
            g0 = gen[0] if gen else ''
            if re.match(r"^(&)?('\w+ )?(mut )?std::collections::(BTreeMap|HashMap)<", g0):
                return [(st, ('call', 'map_iter', (self.res(st, args[0]),)))]
            return [(st, args[0])]
        if sh in MAP_ITER:
            return [(st, ('call', 'map_iter', (self.res(st, args[0]),)))]
        if sh == 'Entry::or_insert_with':
            return [(s, ('call', 'Entry::or_insert', (self.res(s, args[0]), self.res(s, r)))) for s, r in self.call_value(st, args[1], [], (site, 'entry'))]
        if sh == 'Entry::or_default':
            return [(st, ('call', 'Entry::or_insert', (self.res(st, args[0]), ('call', 'default', ()))))]
        if sh in LAZY:
            return [(st, ('call', sh, tuple(args)))]
        if sh in ('Into::into', 'From::from'):
            if sh == 'Into::into':
                src, dst = (gen + ['', ''])[:2]
            else:
                dst, src = (gen + ['', ''])[:2]
            if not gen:
                m = re.match(r'<(.+) as std::convert::From<(.*)>>::from', f.get('resolved') or '')
                dst, src = m.groups() if m else ('', '')
            if (STRLIKE.match(src) and STRLIKE.match(dst)) or src == dst:
                return [(st, self.res(st, args[0]))]
            loc = [n for n in self.p.raw if re.match(r'<' + re.escape(dst) + r' as std::convert::From<', n)]
            if loc:
                if self.opaque(loc[0]):
                    return [(st, ('call', 'into:' + dst, (self.res(st, args[0]),)))]
                return self.inline(st, loc[0], args, site)
            return [(st, ('call', 'into:' + dst, (self.res(st, args[0]),)))]
        if sh in ('PartialEq::eq', 'PartialEq::ne'):
            r = self.eq_term(st, args[0], args[1])
            return [(st, r if sh.endswith('eq') else self.neg(r))]
        if sh in ('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge'):
            if gen and gen[0].lstrip('&') in ('usize', 'u64', 'i64', 'u8', 'u32', 'char', 'i32'):
                return [(st, self.cmp(st, {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[sh[-2:]], args[0], args[1]))]
        if sh in ('Add::add', 'Sub::sub') and gen and gen[0].lstrip('&') in ('usize', 'u64'):
            a, b = self.res(st, args[0]), self.res(st, args[1])
            if sh == 'Sub::sub':
                self.event('assert', st, akind='overflow:Sub', ops=(a, b), ok=self.cmp(st, 'Ge', a, b))
            return [(st, lin_add(a, b, 1 if sh[0] == 'A' else -1))]
        if sh == 'Add::add' and gen and 'String' in gen[0]:
            a, b = self.res(st, args[0]), self.res(st, args[1])
            return [(st, ('fstr', self.flat([('a', 'display', a), ('a', 'display', b)])))]
        if sh == 'Not::not':
            return [(st, self.neg(self.res(st, args[0])))]
        if sh.endswith('::len') and len(args) == 1:
            x = self.res(st, args[0])
            g = st.store.get(('mon', 'ne', base(x)))
            if g == ('const', False):
                return [(st, ('const', 0))]
            if g == ('const', True):
                l = num_lit(self.length(x), ((1, INF),))
                if l not in (True, False):
                    st.guard = dnf_add(st.guard, l)
            if g == ('const', '?'):
                out = []
                for s, w in self.split(st, self.cmp(st, 'Eq', self.length(x), ('const', 0))):
                    self.write(s, (('mon', 'ne', base(x)), ()), ('const', not w))
                    out.append((s, ('const', 0) if w else self.length(x)))
                return out
            return [(st, self.length(x))]
        if sh.endswith('::is_empty') and len(args) == 1:
            g = st.store.get(('mon', 'ne', base(self.res(st, args[0]))))
            if g in (('const', True), ('const', False)):
                return [(st, bool_term(not g[1]))]
            if g == ('const', '?'):
                out = []
                x = self.res(st, args[0])
                for s, w in self.split(st, self.cmp(st, 'Eq', self.length(x), ('const', 0))):
                    self.write(s, (('mon', 'ne', base(x)), ()), ('const', not w))
                    out.append((s, bool_term(w)))
                return out
            return [(st, self.cmp(st, 'Eq', self.length(self.res(st, args[0])), ('const', 0)))]
        if sh in ('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err'):
            adt = 'std::option::Option' if sh[0] == 'O' else 'std::result::Result'
            v = {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}[sh.split('::')[1]]
            return [(st, self.isv(st, args[0], adt, {v}))]
        if sh == 'Try::branch':
            adt = 'std::result::Result' if 'Result' in (f.get('resolved') or gen[0]) else 'std::option::Option'
            out = []
            for s, v, p in self.opt_split(st, args[0], adt):
                if v in ('Ok', 'Some'):
                    out.append((s, ('agg', 'std::ops::ControlFlow', 'Continue', (('0', p),))))
                elif v == 'Err':
                    out.append((s, ('agg', 'std::ops::ControlFlow', 'Break', (('0', ('agg', adt, 'Err', (('0', p),))),))))
                else:
                    out.append((s, ('agg', 'std::ops::ControlFlow', 'Break', (('0', ('agg', adt, 'None', ())),))))
            return out
        if sh == 'FromResidual::from_residual':
            return [(st, args[0])]
        if path.startswith(PANICS) or sh in ('panicking::panic', 'rt::panic_fmt'):
            self.event('panic', st, f=sh, path=path, args=tuple(self.res(st, a) for a in args))
            return [(st, ('never',))]
        if sh in ('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Result::unwrap_err', 'Result::expect_err'):
            adt = 'std::option::Option' if sh[0] == 'O' else 'std::result::Result'
            good = 'Some' if sh[0] == 'O' else ('Err' if sh.endswith('err') else 'Ok')
            out = []
            for s, v, p in self.opt_split(st, args[0], adt):
                if v == good:
                    out.append((s, p))
                else:
                    self.event('panic', s, f=sh, path=path, args=(self.res(s, args[0]),))
            return out
        r = self.combinator(st, sh, f, args, site, gen)
        if r is not None:
            return r
        if sh in ('BTreeMap::contains_key', 'HashMap::contains_key'):
            g = ('call', 'get', (self.res(st, args[0]), self.res(st, args[1])))
            return [(st, self.isv(st, g, 'std::option::Option', {'Some'}))]
        if sh in ('BTreeMap::get', 'HashMap::get'):
            return [(st, ('call', 'get', (self.res(st, args[0]), self.res(st, args[1]))))]
        if sh in ('BTreeMap::get_mut', 'HashMap::get_mut'):
            return [(st, ('call', 'get', (self.res(st, args[0]), self.res(st, args[1]))))]
        if sh in ('slice::get', 'Vec::get', 'slice::first', 'slice::last'):
            v = self.res(st, args[0])
            n = self.length(v)
            if sh.endswith('first'):
                i = ('const', 0)
            elif sh.endswith('last'):
                i = lin_add(n, ('const', 1), -1)
            else:
                i = self.res(st, args[1])
            if sh.endswith('get') and len(gen) > 1 and gen[1] != 'usize':
                return [(st, ('call', 'slice::get', (v, i)))]
            out = []
            for s, w in self.split(st, self.cmp(st, 'Gt', n, i)):
                out.append((s, ('agg', 'std::option::Option', 'Some', (('0', ('idx', v, i)),)) if w else ('agg', 'std::option::Option', 'None', ())))
            return out
        if sh in ('Index::index', 'IndexMut::index_mut'):
            v, i = self.res(st, args[0]), self.res(st, args[1])
            rr = f.get('resolved') or ''
            if 'BTreeMap' in rr or 'HashMap' in rr:
                g = ('call', 'get', (v, i))
                self.event('assert', st, akind='mapindex', ops=(v, i), ok=self.isv(st, g, 'std::option::Option', {'Some'}))
                return [(st, ('vf', g, 'Some', '0'))]
            if is_t(i, 'agg') or is_t(i, 'zst') or (is_t(i, 'cname')):
                self.event('assert', st, akind='sliceindex', ops=(v, i), ok=None, isstr=('str' in rr))
                return [(st, ('slice', v, i))]
            ok = self.cmp(st, 'Gt', self.length(v), i)
            self.event('assert', st, akind='bounds', ops=(self.length(v), i), ok=ok)
            return [(s, self.index(v, i)) for s, w in self.split(st, ok) if w]
        if path.startswith('clap::') and sh.split('::')[-1] == 'subcommand' and len(args) == 1 and 'ArgMatches' in path and self.p.subcommands() and None not in self.p.subcommands():
            # the name of the chosen command together with its arguments: said in terms of the two separate questions
            pre = path[:-len('subcommand')]
            spre = sh[:-len('subcommand')]
            m = self.res(st, args[0])
            nm = ('call', spre + 'subcommand_name', (m,))
            out = []
            for k in [None] + sorted(set(self.p.subcommands())):
                ls = [(self.isv(st, nm, 'std::option::Option', {'None'}), True)] if k is None else [
                    (self.isv(st, nm, 'std::option::Option', {'Some'}), True)]
                states = [st.fork()]
                for l, want in ls:
                    states = [s2 for s in states for s2, w in self.split(s, l) if w == want]
                if k is not None:
                    sub = ('call', spre + 'subcommand_matches', (m, ('const', k)))
                    self.event('call', st, f=spre + 'subcommand_matches', path=pre + 'subcommand_matches', args=(strip(m), ('const', k)), raw=tuple(args), rargs=(m, ('const', k)), ret=sub, local=False, gen=[])
                    for l in (self.eq_term(st, ('const', k), ('vf', nm, 'Some', '0')), self.isv(st, sub, 'std::option::Option', {'Some'})):
                        states = [s2 for s in states for s2, w in self.split(s, l) if w]
                for s in states:
                    out.append((s, ('tuple', (('const', ''), ('agg', 'std::option::Option', 'None', ()))) if k is None else (
                        'tuple', (('const', k), ('agg', 'std::option::Option', 'Some', (('0', ('vf', sub, 'Some', '0')),))))))
            return out
        if sh == 'str::char_indices':
            return [(st, ('cur', self.res(st, args[0]), ('const', 0), True))]
        if sh == 'Iterator::peekable' and is_t(self.res(st, args[0]), 'cur'):
            return [(st, self.res(st, args[0]))]
        if sh in ('Iterator::next', 'Peekable::peek') and is_t(args[0], 'ref'):
            r = self.cur_step(st, args[0], sh == 'Iterator::next')
            if r is not None:
                return [(s, x) for s, x, _ in r]
        if sh in ('Peekable::next_if', 'Peekable::next_if_eq') and is_t(args[0], 'ref'):
            r = self.cur_step(st, args[0], False)
            if r is not None:
                out = []
                for s, x, last in r:
                    if x[2] == 'None':
                        out.append((s, x))
                        continue
                    e = x[3][0][1]
                    if sh.endswith('_eq'):
                        hits = [(s, self.eq_term(s, e, args[1]))]
                    else:
                        hits = self.call_value(s, args[1], [e], (site, 'nif'))
                    for s2, b in hits:
                        for s3, w in self.split(s2, b):
                            if w:
                                cur = self.read(s3, (last[1], last[2]))
                                self.write(s3, (last[1], last[2]), ('cur', cur[1], lin_add(cur[2], ('const', 1)), cur[3]))
                                out.append((s3, x))
                            else:
                                out.append((s3, ('agg', 'std::option::Option', 'None', ())))
                return out
        if sh == 'Iterator::next' and is_t(args[0], 'ref'):
            return self.do_next(st, args[0], site)
        if sh == 'Extend::extend' and str(tys[0] if tys else '').lstrip('&').startswith(('mut std::vec::Vec<', 'mut Vec<')):
            one = self.res(st, args[1])
            one = one[2][0] if is_t(one, 'call') and one[1] == 'iter::once' else one[3][0][1] if is_t(one, 'agg') and one[2] == 'Some' else None
            if one is not None:
                sh, path, args = 'Vec::push', 'std::vec::Vec::<T, A>::push', [args[0], one]
        if sh == 'Extend::extend' and 'string::String' in str(tys[0] if tys else ''):
            one = self.res(st, args[1])
            one = one[2][0] if is_t(one, 'call') and one[1] == 'iter::once' else one[3][0][1] if is_t(one, 'agg') and one[2] == 'Some' else None
            if one is not None:
                sh, args = 'String::push' if 'char' in gen[1:2] else 'String::push_str', [args[0], one]
                path = 'std::string::' + sh
        if sh in RUNS_CLOSURE_ON_ELEM:
            return self.consume(st, sh, f, args, tys, site, gen)
        if sh == 'PathBuf::set_extension' and is_t(args[0], 'ref'):
            old = self.read(st, (args[0][1], args[0][2]))
            self.write(st, (args[0][1], args[0][2]), ('call', 'Path::with_extension', (self.res(st, old), self.res(st, args[1]))))
            return [(st, ('unk', 'set_extension'))]
        if sh == 'Clone::clone_from' and is_t(args[0], 'ref'):
            self.write(st, (args[0][1], args[0][2]), self.res(st, args[1]))
            return [(st, ('tuple', ()))]
        if sh in ('mem::take', 'Option::take', 'mem::replace', 'Option::replace') and is_t(args[0], 'ref'):
            loc = (args[0][1], args[0][2])
            old = self.read(st, loc)
            new = ('agg', 'std::option::Option', 'None', ()) if sh == 'Option::take' else (
                ('agg', 'std::option::Option', 'Some', (('0', args[1]),)) if sh == 'Option::replace' else
                args[1] if sh == 'mem::replace' else ('call', 'default', (site,)))
            self.event('call', st, f=sh, path=path, args=(strip(self.res(st, old)),), raw=tuple(args), rargs=(self.res(st, old),), local=False)
            if sh == 'mem::take' and self.take_clears and is_t(base(old), 'new'):
                self.write(st, loc, ('mut', base(old), ('c',) + site), 'mut' if not loc[1] else 'part')
            else:
                self.write(st, loc, new)
            return [(st, old)]
        if sh in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call'):
            tup = self.res(st, args[1]) if is_t(args[1], 'ref') else args[1]
            return self.call_value(st, args[0], list(tup[1]) if is_t(tup, 'tuple') else [tup], (site, 'cc'))
        if sh in ('Write::write_fmt', 'Formatter::write_fmt', 'Write::write_str', 'Formatter::write_str', 'Write::write_char') or (
                sh in ('String::push_str', 'String::push')):
            ps = self.pieces(st, args[1])
            if sh.endswith('write_str') or sh == 'String::push_str':
                ps = self.flat([('a', 'display', self.res(st, args[1]))])
            if sh.endswith('write_char') or sh == 'String::push':
                x = self.res(st, args[1])
                ps = (('s', chr(x[1])),) if is_t(x, 'const') and isinstance(x[1], int) else (('a', 'char', x),)
            dst = args[0]
            self.event('write', st, dst=strip(self.res(st, dst)), pieces=ps, f=sh)
            if is_t(dst, 'ref'):
                old = self.read(st, (dst[1], dst[2]))
                had = None
                if self.build_strings and sh.startswith(('String::', 'Write::')):
                    if is_t(old, 'call') and old[1] in ('into:std::string::String', 'str::to_owned', 'ToOwned::to_owned', 'str::to_string', 'ToString::to_string') and len(old[2]) == 1:
                        x = old[2][0]
                        old = ('const', chr(x[1])) if is_t(x, 'const') and type(x[1]) is int and old[1].startswith('into:') else x if is_t(x, 'const') else ('fstr', self.flat([('a', 'display', self.res(st, old[2][0]))]))
                    had = old[1] if is_t(old, 'fstr') else (('s', old[1]),) if is_t(old, 'const') and isinstance(old[1], str) else () if is_t(old, 'new') and old[1] == 'String' else None
                if had is not None:
                    ps = had + tuple(ps)
                    while any(x[0] == y[0] == 's' for x, y in zip(ps, ps[1:])):
                        i = next(i for i in range(len(ps)) if ps[i][0] == ps[i + 1][0] == 's')
                        ps = ps[:i] + (('s', ps[i][1] + ps[i + 1][1]),) + ps[i + 2:]
                    self.write(st, (dst[1], dst[2]), ('fstr', ps))
                else:
                    self.write(st, (dst[1], dst[2]), ('mut', base(old), ('w',) + site), 'mut' if not dst[2] else 'part')
            if sh.startswith('String::'):
                return [(st, ('tuple', ()))]
            if self.writes_ok:
                return [(st, ('agg', 'std::result::Result', 'Ok', (('0', ('tuple', ())),)))]
            return [(st, ('callm', 'write', (ps,), site))]
        # ---- generic external function
        return self.generic(st, sh, path, args, tys, site, gen, f, t)

    PURE_NEW = re.compile(r'(Vec|BTreeMap|BTreeSet|HashMap|HashSet|String|PathBuf|VecDeque|Default)::(new|with_capacity|default)$')

    def generic(self, st, sh, path, args, tys, site, gen, f, t=None):
        if self.PURE_NEW.search(sh):
            r = ('new', sh.split('::')[0] if sh != 'Default::default' else (gen[0] if gen else 'Default'), site)
            self.event('new', st, f=sh, obj=r)
            if t is not None and self.errty in self.fnstack[-1][0].locals[t['dest']['l']]:
                self.write(st, (('mon', 'ne', r), ()), ('const', False))
            return [(st, r)]
        rargs = tuple(self.res(st, a) for a in args)
        roots = []
        for a, ty in zip(args, tys):
            if is_t(a, 'ref') and isinstance(ty, str) and ty.startswith('&mut'):
                roots.append((a[1], a[2]))
        # closures handed to an unknown function may run any number of times
        states = [st]
        for i, a in enumerate(args):
            if is_t(a, 'closure') and self.p.has(a[1]) and not any(fr[0].name == a[1] for fr in self.fnstack):
                nargs = self.p.raw[a[1]]['nargs']
                ns = []
                for s in states:
                    s1 = s.fork()
                    lit = (('b', ('maybe', site, i)), frozenset([True]))
                    s1.guard = dnf_add(s1.guard, lit)
                    self.loopstack = self.loopstack + ((site, 'hof'),)
                    self.inline(s1, a[1], [a] + [('arg', site, i, k) for k in range(nargs - 1)], (site, 'unk', i))
                    self.loopstack = self.loopstack[:-1]
                    ns.append(s)
                states = ns
        ret = ('callm', sh, tuple(base(r) for r in rargs), site) if roots else ('call', sh, rargs)
        self.event('call', st, f=sh, path=path, args=tuple(strip(r) for r in rargs), rargs=rargs, raw=tuple(args), ret=ret, local=False, gen=gen)
        self.result_made(st, t, ret)
        if sh in ('Vec::push', 'Vec::extend_from_slice', 'Vec::append', 'Vec::insert', 'io::_eprint', 'io::_print'):
            for r in rargs[0 if sh.startswith('io') else 1:]:
                self.result_used(st, r)
        for root, p in roots:
            old = self.read(st, (root, p))
            self.write(st, (root, p), ('mut', base(old), ('c',) + site), 'mut' if not p else 'part')
            gk = ('mon', 'ne', base(old))
            if gk in st.store:
                if sh in ('Vec::push', 'Vec::insert'):
                    self.write(st, (gk, ()), ('const', True))
                elif sh in ('Vec::extend_from_slice', 'Vec::append'):
                    if st.store[gk] != ('const', True):
                        g2 = st.store.get(('mon', 'ne', base(rargs[1])))
                        if g2 is None and is_t(base(rargs[1]), 'vf') and base(rargs[1])[2] == 'Err':
                            g2 = ('const', True)
                        self.write(st, (gk, ()), ('const', '?') if g2 is None else (g2 if g2 != ('const', False) else st.store[gk]))
                elif sh in ('Vec::reserve', 'Vec::sort_by', 'slice::sort_by', 'slice::sort', 'slice::reverse', 'slice::iter_mut'):
                    pass
                elif sh == 'Vec::clear':
                    self.write(st, (gk, ()), ('const', False))
                else:
                    self.write(st, (gk, ()), ('const', '?'))
        return [(st, ret)]

    def do_next(self, st, ref, site):
        it = ref
        seen = 0
        while is_t(it, 'ref'):
            last = it
            it = self.read(st, (it[1], it[2]))
        L = self.loopstack[-1] if self.loopstack else None
        root = last[1]
        # is the iterator older than the innermost loop?
        inloop = L is not None and L in self.heads and any(root in h.store for h in self.heads[L])
        if is_t(it, 'nextd') or not inloop:
            k = it[2] + 1 if is_t(it, 'nextd') else 0
            b0 = it[1] if is_t(it, 'nextd') else it
            src = self.iter_src(st, b0)
            if not inloop:
                self.write(st, (last[1], last[2]), ('nextd', b0, k))
                out = []
                a = ('is', ('next', src, ('k', k)))
                UNIV.setdefault(a[1], frozenset(('None', 'Some')))
                for v in ('Some', 'None'):
                    g = dnf_add(st.guard, (a, frozenset([v])))
                    if g:
                        s = st.fork()
                        s.guard = g
                        if v == 'Some':
                            if self.drops(b0):
                                raise Fail('an element of an iterator that leaves out some')
                            for s2, e in self.iter_elem(s, b0, ('k', k), (site, k)):
                                out.append((s2, ('agg', 'std::option::Option', 'Some', (('0', e),))))
                        else:
                            out.append((s, ('agg', 'std::option::Option', 'None', ())))
                return out
            it = ('call', 'Iterator::skip', (b0, ('const', k)))
        # an iterator that is advanced by several sites in one loop is not a plain for loop
        sites = self.next_sites.setdefault((L, root), set())
        if site not in sites:
            sites.add(site)
            if len(sites) > 1:
                self.grew = True
        tag = L if len(sites) == 1 else (L, site)
        src = self.iter_src(st, it)
        out = []
        x = ('next', src, tag)
        a = ('is', x)
        UNIV.setdefault(x, frozenset(('None', 'Some')))
        g = dnf_add(st.guard, (a, frozenset(['Some'])))
        if g:
            s = st.fork()
            s.guard = g
            if self.drops(it):
                self.dropping.add(tag)
            for s2, e in self.iter_elem(s, it, tag, (site, 'n')):
                out.append((s2, ('agg', 'std::option::Option', 'None', ()) if e == ('stop',) else ('agg', 'std::option::Option', 'Some', (('0', e),))))
        g = dnf_add(st.guard, (a, frozenset(['None'])))
        if g:
            s = st.fork()
            s.guard = g
            out.append((s, ('agg', 'std::option::Option', 'None', ())))
        return out

    def lookup(self, st, op, items, f, site):
        """a search through the items of a table that is written down, one after the other"""
        some = lambda v: ('agg', 'std::option::Option', 'Some', (('0', v),))
        none = ('agg', 'std::option::Option', 'None', ())
        out, left = [], [st]
        for k, e in enumerate(items):
            nxt = []
            for s in left:
                for s2, r in self.call_value(s, f, [e], (site, 'lk', k)):
                    if op == 'find_map':
                        for v in ('Some', 'None'):
                            for s3, w in self.split(s2, self.isv(s2, r, 'std::option::Option', {v})):
                                if w and v == 'Some':
                                    out.append((s3, r if is_t(r, 'agg') else some(('vf', r, 'Some', '0'))))
                                elif w:
                                    nxt.append(s3)
                        continue
                    for s3, w in self.split(s2, r):
                        if w == (op != 'all'):
                            out.append((s3, some(e) if op == 'find' else some(('const', k)) if op == 'position' else ('const', op == 'any')))
                        else:
                            nxt.append(s3)
            left = nxt
        return out + [(s, none if op in ('find', 'find_map', 'position') else ('const', op == 'all')) for s in left]

    def consume(self, st, sh, f, args, tys, site, gen):
        op = sh.split('::')[1]
        it = args[0]
        dst = None
        if sh == 'Extend::extend':
            dst, it = args[0], args[1]
        src = self.iter_src(st, it)
        table = self.res(st, self.read(st, (it[1], it[2])) if is_t(it, 'ref') else it)
        if op in ('find', 'find_map', 'any', 'all', 'position') and is_t(table, 'array') and 0 < len(table[1]) <= 64:
            return self.lookup(st, op, table[1], args[1], site)
        L = (site, 'hof')
        entry = st.fork()
        # body under a pseudo loop
        self.loopstack = self.loopstack + (L,)
        x = ('next', src, L)
        UNIV.setdefault(x, frozenset(('None', 'Some')))
        elems = []
        for s in self.widen([st.fork()], L):
            s.guard = dnf_add(s.guard, (('is', x), frozenset(['Some'])))
            elems += self.iter_elem(s, it, L, (site, 'e')) if s.guard else []
        results = []
        stops = []
        drops = self.drops(it if not is_t(it, 'ref') else self.read(st, (it[1], it[2])))
        if drops:
            self.dropping.add(L)
        ends = [(s2, e, e) for s2, e in elems if e == ('stop',)]
        if ends and op not in ('count', 'any', 'all', 'collect'):
            raise Fail('an iterator that ends early')
        for s2, e in elems:
            if e == ('stop',):
                continue
            if op in ('for_each', 'try_for_each', 'any', 'all', 'find', 'position', 'find_map'):
                for s3, r in self.call_value(s2, args[1], [e], (site, 'f')):
                    results.append((s3, e, r))
            elif op in ('fold', 'try_fold'):
                acc = ('acc', L)
                for s3, r in self.call_value(s2, args[2], [acc, e], (site, 'f')):
                    results.append((s3, e, r))
            elif op in ('max_by_key', 'min_by_key'):
                for s3, r in self.call_value(s2, args[1], [e], (site, 'f')):
                    results.append((s3, e, r))
            else:
                results.append((s2, e, e))
        if op in ('try_for_each', 'try_fold'):
            goes = []
            for s3, e, r in results:
                if is_t(self.res(s3, r), 'agg') and self.res(s3, r)[2] in ('Ok', 'Continue', 'Some'):
                    goes.append((s3, e, r))
                    continue
                for s4, v, pl in self.opt_split(s3, r, 'std::result::Result'):
                    if v == 'Err':
                        stops.append((s4, ('agg', 'std::result::Result', 'Err', (('0', pl),))))
                    else:
                        goes.append((s4, e, r))
            results = goes
        if op in ('any', 'all', 'find'):
            want = op != 'all'
        rterms = []
        for s3, e, r in results:
            rt = strip(self.res(s3, r))
            if rt not in rterms:
                rterms.append(rt)
        for s3, e, r in results:
            self.latches.setdefault(L, []).append(s3.fork())
            self.latch(s3.fork(), L)
        self.loopstack = self.loopstack[:-1]
        # after the loop: everything written in it is unknown
        afters = self.widen([entry], L)
        if op in ('for_each', 'try_for_each') or self.head_hook and L not in self.quiet and op in ('collect', 'fold', 'try_fold', 'last', 'sum', 'max', 'min', 'count'):
            for s in afters:
                s.guard = dnf_add(s.guard, (('is', x), frozenset(['None'])))
        after = afters[0]
        body = tuple(rterms)
        if op in ('find', 'find_map', 'max_by_key', 'min_by_key'):
            self.found.setdefault(L, set()).update(strip(self.res(s3, e)) for s3, e, r in results)
        summ = ('iter', op, src, body, L) + (tuple(self.res(st, a) for a in args[1:2]) if op == 'fold' else ())
        if op in ('any', 'all', 'count', 'position', 'find') and len(rterms) > 1 or drops:  # which result when
            own = lambda a: contains(a, lambda y: len(y) == 3 and y[0] in ('elem', 'key', 'val') and (y[2] == L or isinstance(y[2], tuple) and y[2][:1] == (L,)))
            summ += (('cases', tuple((strip(self.res(s3, r)), tuple(tuple((a, v) for a, v in cj if own(a)) for cj in s3.guard)) for s3, e, r in results + ends)),)
        self.event('consume', after, f=sh, op=op, src=strip(src), body=body, L=L, src_v=src)
        out = list(stops)
        if op in ('for_each',):
            out += [(x, ('tuple', ())) for x in afters]
        elif op == 'try_for_each':
            out += [(x, ('agg', 'std::result::Result', 'Ok', (('0', ('tuple', ())),))) for x in afters]
        elif sh == 'Extend::extend':
            loc = (dst[1], dst[2]) if is_t(dst, 'ref') else None
            for after in afters:
                self.event('call', after, f=sh, path='extend', args=(strip(self.res(after, dst)), strip(src)), raw=tuple(args), rargs=(self.res(after, dst), src), ret=summ, local=False)
                self.result_used(after, src)
                if loc:
                    old = self.read(after, loc)
                    self.write(after, loc, ('mut', base(old), ('c',) + site), 'mut' if not loc[1] else 'part')
                    gk = ('mon', 'ne', base(old))
                    if gk in after.store and after.store[gk] != ('const', True):
                        g2 = after.store.get(('mon', 'ne', base(src)))
                        if g2 is None and is_t(base(src), 'vf') and base(src)[2] == 'Err':
                            g2 = ('const', True)
                        self.write(after, (gk, ()), ('const', '?') if g2 is None else (g2 if g2 != ('const', False) else after.store[gk]))
                out.append((after, ('tuple', ())))
        elif op == 'count' and not drops:
            out += [(x, ('call', 'count', (src,))) for x in afters]
        else:
            out += [(x, summ) for x in afters]
        return out

    def combinator(self, st, sh, f, args, site, gen):
        O, R = 'std::option::Option', 'std::result::Result'

        def some(x):
            return ('agg', O, 'Some', (('0', x),))

        none = ('agg', O, 'None', ())

        def ok(x):
            return ('agg', R, 'Ok', (('0', x),))

        def err(x):
            return ('agg', R, 'Err', (('0', x),))

        out = []
        n = sh.split('::')[1] if '::' in sh else sh
        if sh.startswith('Option::'):
            if n in ('map', 'and_then', 'is_some_and', 'is_none_or', 'filter', 'inspect'):
                for s, v, p in self.opt_split(st, args[0], O):
                    if v == 'None':
                        out.append((s, bool_term(n == 'is_none_or') if n.startswith('is_') else none))
                    else:
                        for s2, r in self.call_value(s, args[1], [p], (site, 1)):
                            if n == 'map':
                                out.append((s2, some(r)))
                            elif n == 'filter':
                                out += [(s3, some(p) if w else none) for s3, w in self.split(s2, r)]
                            elif n == 'inspect':
                                out.append((s2, some(p)))
                            else:
                                out.append((s2, r))
                return out
            if n in ('map_or', 'map_or_else', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'ok_or', 'ok_or_else', 'or', 'or_else'):
                for s, v, p in self.opt_split(st, args[0], O):
                    if v == 'None':
                        if n in ('map_or_else', 'unwrap_or_else', 'or_else', 'ok_or_else'):
                            for s2, r in self.call_value(s, args[1], [], (site, 0)):
                                out.append((s2, err(r) if n == 'ok_or_else' else r))
                        elif n == 'unwrap_or_default':
                            out.append((s, ('call', 'default', ())))
                        else:
                            out.append((s, err(args[1]) if n == 'ok_or' else args[1]))
                    elif n in ('map_or', 'map_or_else'):
                        out += self.call_value(s, args[2], [p], (site, 1))
                    elif n in ('ok_or', 'ok_or_else'):
                        out.append((s, ok(p)))
                    elif n in ('or', 'or_else'):
                        out.append((s, some(p)))
                    else:
                        out.append((s, p))
                return out
        if sh.startswith('Result::'):
            if n in ('map', 'map_err', 'and_then', 'or_else', 'ok', 'err', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default',
                     'map_or', 'map_or_else', 'is_ok_and', 'is_err_and', 'inspect_err', 'inspect'):
                for s, v, p in self.opt_split(st, args[0], R):
                    if n == 'map':
                        out += [(s2, ok(r)) for s2, r in self.call_value(s, args[1], [p], (site, 1))] if v == 'Ok' else [(s, err(p))]
                    elif n == 'map_err':
                        out += [(s2, err(r)) for s2, r in self.call_value(s, args[1], [p], (site, 1))] if v == 'Err' else [(s, ok(p))]
                    elif n == 'and_then':
                        out += self.call_value(s, args[1], [p], (site, 1)) if v == 'Ok' else [(s, err(p))]
                    elif n == 'or_else':
                        out += self.call_value(s, args[1], [p], (site, 1)) if v == 'Err' else [(s, ok(p))]
                    elif n == 'ok':
                        if v == 'Err':
                            self.event('dropped_err', s, f=sh, val=self.res(s, p))
                        out.append((s, some(p) if v == 'Ok' else none))
                    elif n == 'err':
                        out.append((s, some(p) if v == 'Err' else none))
                    elif n in ('unwrap_or', 'unwrap_or_else', 'unwrap_or_default'):
                        if v == 'Ok':
                            out.append((s, p))
                        else:
                            self.event('dropped_err', s, f=sh, val=self.res(s, p))
                            if n == 'unwrap_or_else':
                                out += self.call_value(s, args[1], [p], (site, 0))
                            else:
                                out.append((s, args[1] if n == 'unwrap_or' else ('call', 'default', ())))
                    elif n in ('map_or', 'map_or_else'):
                        if v == 'Ok':
                            out += self.call_value(s, args[2], [p], (site, 1))
                        else:
                            self.event('dropped_err', s, f=sh, val=self.res(s, p))
                            out += self.call_value(s, args[1], [p], (site, 0)) if n == 'map_or_else' else [(s, args[1])]
                    elif n in ('is_ok_and', 'is_err_and'):
                        if v == ('Ok' if n == 'is_ok_and' else 'Err'):
                            out += self.call_value(s, args[1], [p], (site, 1))
                        else:
                            out.append((s, bool_term(False)))
                    else:
                        if v == ('Err' if n == 'inspect_err' else 'Ok'):
                            for s2, _ in self.call_value(s, args[1], [p], (site, 1)):
                                out.append((s2, err(p) if v == 'Err' else ok(p)))
                        else:
                            out.append((s, err(p) if v == 'Err' else ok(p)))
                return out
        if sh in ('bool::then', 'bool::then_some'):
            for s, w in self.split(st, args[0]):
                if not w:
                    out.append((s, none))
                elif n == 'then':
                    out += [(s2, some(r)) for s2, r in self.call_value(s, args[1], [], (site, 1))]
                else:
                    out.append((s, some(args[1])))
            return out
        return None

    # ------------------------------------------------ formatting
    def fmt(self, st, sh, args):
        if sh.startswith('Argument::new_'):
            return ('fa', sh[len('Argument::new_'):], self.res(st, args[0]))
        if sh in ('Arguments::from_str', 'Arguments::from_str_nonconst', 'Arguments::new_const'):
            x = self.res(st, args[0])
            return ('fmt', (('s', x[1]),) if is_t(x, 'const') else (('a', 'display', x),))
        if sh == 'Arguments::new':
            tm = self.res(st, args[0])
            ar = self.res(st, args[1])
            if not is_t(tm, 'array') or not is_t(ar, 'array'):
                return ('fmt', (('a', '?', ('unk', 'fmt')),))
            bs = [x[1] for x in tm[1]]
            out = []
            i = 0
            nxt = 0
            while i < len(bs):
                c = bs[i]
                i += 1
                if c == 0:
                    break
                if c < 0x80 or c == 0x80:
                    if c == 0x80:
                        n = bs[i] | bs[i + 1] << 8
                        i += 2
                    else:
                        n = c
                    out.append(('s', bytes(bs[i:i + n]).decode()))
                    i += n
                elif c >= 0xC0:
                    opts = []
                    if c & 1:
                        opts.append(('flags', tuple(bs[i:i + 4])))
                        i += 4
                    if c & 2:
                        opts.append(('width', bs[i] | bs[i + 1] << 8))
                        i += 2
                    if c & 4:
                        opts.append(('prec', bs[i] | bs[i + 1] << 8))
                        i += 2
                    idx = nxt
                    if c & 8:
                        idx = bs[i] | bs[i + 1] << 8
                        i += 2
                    nxt = idx + 1
                    a = ar[1][idx]
                    if is_t(a, 'fa'):
                        kind = a[1] if not opts else a[1] + repr(opts)
                        out.append(('a', kind, a[2]))
                    else:
                        out.append(('a', '?', a))
            return ('fmt', self.flat(out))
        return ('fmt', (('a', '?', tuple(self.res(st, a) for a in args)),))

    def flat(self, ps):
        out = []
        for p in ps:
            if p[0] == 'a' and p[1] in ('display',):
                x = p[2]
                if is_t(x, 'const'):
                    v = x[1]
                    p = ('s', str(v) if not isinstance(v, bool) else str(v).lower())
                elif is_t(x, 'fstr') or is_t(x, 'fmt'):
                    for q in self.flat(x[1]):
                        if q[0] == 's' and out and out[-1][0] == 's':
                            out[-1] = ('s', out[-1][1] + q[1])
                        else:
                            out.append(q)
                    continue
            if p[0] == 's' and out and out[-1][0] == 's':
                out[-1] = ('s', out[-1][1] + p[1])
            elif p != ('s', ''):
                out.append(p)
        return tuple(out)

    def pieces(self, st, a):
        x = self.res(st, a)
        if is_t(x, 'fmt'):
            return self.flat(x[1])
        return self.flat([('a', 'display', x)])

    # ------------------------------------------------ driver
    def analyze(self, name, params=None, init=None):
        """-> list of (State, return term); self.events holds the events"""
        fn = self.p.fn(name)
        for rnd in range(40):
            self.events = []
            self.latches = {}
            self.heads = {}
            self.entries = {}
            self.next_sites = {k: v for k, v in self.next_sites.items()}
            self.grew = False
            self.loopstack = ()
            self.fnstack = []
            self.nblocks = 0
            st = State({}, TRUE)
            fid = self.fid(('root', name))
            for i in range(fn.nargs):
                ty = fn.locals[i + 1]
                v = ('param', i)
                if params and i in params:
                    v = params[i]
                if isinstance(ty, str) and ty.startswith('&mut'):
                    root = ('ext', i)
                    st.store[root] = v
                    if ty.split()[-1] in ('usize', 'u64', 'u32', 'isize', 'i64', 'i32', 'u8'):
                        self.introots.add(root)
                    v = ('ref', root, ())
                st.store[('l', fid, i + 1)] = v
            if init:
                init(st)
            rets = self.run_body(fn, fid, [st])
            if not self.grew:
                return rets
        raise Fail('no fixpoint for ' + name)


def show(t, depth=0):
    """compact rendering of a term"""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if depth > 12:
        return '…'
    r = lambda x: show(x, depth + 1)
    if k == 'const':
        return repr(t[1])
    if k == 'param':
        return 'arg%s' % t[1]
    if k == 'f':
        return '%s.%s' % (r(t[1]), t[2])
    if k == 'vf':
        return '%s.%s%s' % (r(t[1]), t[2], '' if t[3] == '0' else '.' + t[3])
    if k in ('call', 'callm'):
        return '%s(%s)' % (t[1].split('::')[-1] if not t[1].startswith('into') else 'into', ', '.join(r(x) for x in t[2]))
    if k == 'agg':
        return '%s{%s}' % (t[2], ', '.join('%s:%s' % (a, r(b)) for a, b in t[3]))
    if k == 'tuple':
        return '(%s)' % ', '.join(r(x) for x in t[1])
    if k == 'mut':
        return r(t[1]) + "'"
    if k == 'elem':
        return 'elem(%s)' % r(t[1])
    if k in ('key', 'val'):
        return '%s(%s)' % (k, r(t[1]))
    if k == 'idx':
        return '%s[%s]' % (r(t[1]), r(t[2]))
    if k == 'lin':
        return '(' + '+'.join('%s%s' % ('' if c == 1 else '%d*' % c, r(x)) for x, c in t[1]) + '+%d)' % t[2]
    if k == 'fstr' or k == 'fmt':
        return 'f"%s"' % ''.join(p[1] if p[0] == 's' else '{%s}' % r(p[2]) for p in t[1])
    if k == 'new':
        return 'new ' + t[1]
    if k == 'next':
        return 'next(%s)' % r(t[1])
    return '%s(%s)' % (k, ', '.join(r(x) for x in t[1:]))


def show_guard(g):
    def lit(a, v):
        if a[0] == 'n':
            return '%s∈%s' % (show(a[1]), ','.join('[%s,%s]' % ('-∞' if x <= -INF else x, '∞' if y >= INF else y) for x, y in v))
        if a[0] == 'b':
            return ('' if True in v else '¬') + show(a[1])
        return '%s is %s' % (show(a[1]), '|'.join(sorted(v)))
    return ' ∨ '.join('{' + '; '.join(sorted(lit(a, v) for a, v in c)) + '}' for c in g)
