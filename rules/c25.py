"""Diagnostics name the file and show the place they are about."""
from spec import *
import re
from engine import to_lin
import c08
import c09
import c15
import c17
import grammar
import itertools
import c06
import loader
import valid

EXPLANATION = ('Dataflow from every place that makes an error to the file and the range of text it is given. Tokenizer: product with the reference machine of C17, '
               'which knows where the offending text begins. Parser: the range must be that of the token the message speaks of, which must be the one at the '
               'position reached, or the end of the last token exactly if the tokens have run out; nodes of the syntax tree claim the range from their first to '
               'their last token. Validator and loader: the path, text and range must be those of the declaration, field, type or import that the message names, '
               'in the file it was read from; where an import cannot be read, those of the import that asked for it. Listing: linear arithmetic over its loop decides '
               'that exactly the lines that meet the range are shown, with their numbers and whole text.')
FLOORS = {'obligations': 150, 'functions': 8}


def node(t):
    return isinstance(t, tuple) and bool(t) and isinstance(t[0], str)


def throws(events, fn='error::throw'):
    """calls of a function, once per combination of arguments and paths that lead to it"""
    by = {}
    for e in events:
        if e['kind'] == 'call' and e['f'] == fn and len(e['args']) >= 2:
            k = (e['site'], tuple(e['args']), e['loops'])
            if k in by:
                by[k]['guard'] = by[k]['guard'] | e['guard']
            else:
                by[k] = dict(e)
    return list(by.values())


def opt(t):
    """content of an Option: a term, None, or '?'"""
    t = bare(t)
    if is_t(t, 'agg') and t[2] == 'Some':
        return bare(t[3][0][1])
    if is_t(t, 'agg') and t[2] == 'None':
        return None
    return '?'


def place(e, f=strip):
    """(path, text, range) an error is given; None where it is not"""
    p, l = opt(e['args'][1]), opt(e['args'][2])
    if is_t(l, 'call') and l[1] == 'error::listing':
        return strip(p), strip(l[2][0]), f(l[2][1])
    return strip(p), f(l), f(l)


def show(c, x):
    return c(x)[:160] if isinstance(x, tuple) else 'nothing' if x is None else 'something that is not known'


# ------------------------------------------------------------------ validator
def validator(prog, rep):
    v = valid.Valid(prog, rep)
    if v.an is None:
        return
    c = v.c
    n = set()
    for e in throws(v.events):
        loops = v.where(e)
        if c08.FILES not in loops:
            p, text, r = place(e)
            rep.ob(p is None and text is None, 'validator:none', 'an error about no particular file is shown with %s, %s' % (show(c, p), show(c, text)), e['site'])
            continue
        has = lambda name: name in re.sub(r'S:[\w|., ()]*', '', c(e['args'][0]))
        what = 'FIELD.type' if has('FIELD.type') else 'FIELD' if has('FIELD') else 'DECL' if has('DECL') else \
            None if contains(e['args'][0], lambda t: is_t(t, 'fstr') or is_t(t, 'fmt')) else 'FIELD' if c08.FIELDS in loops else 'DECL'
        p, text, r = place(e)
        if what is None:
            rep.ob(p is None and text is None, 'validator:none', 'an error about no particular file is shown with %s, %s' % (show(c, p), show(c, text)), e['site'])
            continue
        n.add(what)
        about = {'FIELD.type': 'the type of a field', 'FIELD': 'a field', 'DECL': 'a declaration'}[what]
        rep.ob(isinstance(p, tuple) and c(p) == 'PATH', 'validator:file:' + what, 'an error about %s names %s as its file' % (about, show(c, p)), e['site'])
        rep.ob(isinstance(text, tuple) and c(text) == 'TEXT', 'validator:text:' + what, 'an error about %s shows lines of %s' % (about, show(c, text)), e['site'])
        rep.ob(isinstance(r, tuple) and c(r) == what + '.source_range', 'validator:range:' + what, 'an error about %s shows the lines of %s' % (about, show(c, r)), e['site'])
    rep.ob(n >= {'FIELD.type', 'FIELD', 'DECL'}, 'anchor:validator', 'the validator reports nothing about %s' % sorted({'FIELD.type', 'FIELD', 'DECL'} - n))
    c09.recursion(prog, rep, v)


# ------------------------------------------------------------------ loader
def load(prog, rep):
    L = loader.Loader(prog, rep)
    if L.an is None:
        return
    c = L.c
    IMP = 'IMP.source_range'
    work = L.worklist()
    slots = set()
    seen = set()
    for e in throws(L.events):
        p, text, r = place(e)
        whole = ' '.join(c(a) for a in (e['args'][0],) + tuple(e['args'][3:]))
        imp = any(x in whole for x in ('IMP', 'FULL', 'REL'))
        if not imp and 'read_to_string(' in whole:
            seen.add('read')
            if p is None and r is None:
                for cj in e['guard']:
                    ok = any(a[0] == 'is' and v == frozenset(['None']) and loader.path_from_pop(strip(a[1])) is not None for a, v in cj)
                    rep.ob(ok, 'loader:origin', 'a file that cannot be read is reported without the import that asked for it', e['site'])
                continue
            a, b = (loader.path_from_pop(x) if isinstance(x, tuple) else None for x in (p, r))
            if rep.ob(bool(a) and bool(b), 'loader:origin', 'a file that cannot be read is reported at %s, %s instead of the import that asked for it' % (show(c, p), show(c, r)), e['site']):
                slots.add((a, b))
            continue
        if imp:
            seen.add('import')
            rep.ob(isinstance(p, tuple) and c(p) == 'CUR', 'loader:file', 'an error about an import names %s as its file' % show(c, p), e['site'])
            rep.ob(isinstance(text, tuple) and c(text) == 'TEXT', 'loader:text', 'an error about an import shows lines of %s' % show(c, text), e['site'])
            rep.ob(isinstance(r, tuple) and c(r) == IMP, 'loader:range', 'an error about an import shows the lines of %s' % show(c, r), e['site'])
        elif e['loops']:
            seen.add('file')
            rep.ob(isinstance(p, tuple) and c(p) == 'CUR' and r is None, 'loader:whole', 'an error about a file is shown with %s, %s' % (show(c, p), show(c, r)), e['site'])
        else:
            seen.add('root')
            rep.ob((p is None or isinstance(p, tuple) and c(p) == 'arg0') and r is None, 'loader:root', 'an error about the given path is shown with %s, %s' % (show(c, p), show(c, r)), e['site'])
    rep.ob(seen >= {'read', 'import', 'root'}, 'anchor:loader', 'the loader reports nothing about %s' % sorted({'read', 'import', 'root'} - seen))
    pushed = 0
    for e in L.events:
        if e['kind'] != 'call' or not e.get('rargs') or len(e['args']) < 2 or e['f'].split('::')[-1] not in ('push', 'push_back', 'insert', 'push_front', 'extend'):
            continue
        if loader.place_of(e) not in work and not (e['f'].split('::')[-1] in ('push', 'push_back', 'push_front') and c06.pushed(L, e)):
            continue
        v = strip(('tuple', tuple(e['args'][1:]))) if len(e['args']) > 2 else strip(e['args'][1])
        for pa, pb in slots:
            some = [i for i, x in enumerate(pa) if x[:2] == ('vf', 'Some')]
            o = loader.proj(v, pa[:some[-1]]) if some else None
            if not e['loops']:
                rep.ob(o is None or is_t(o, 'agg') and o[2] == 'None', 'loader:root-origin', 'the given file is treated as imported from %s' % show(c, o), e['site'])
                continue
            pushed += 1
            x, y = loader.proj(v, pa), loader.proj(v, pb)
            rep.ob(x is not None and c(x) == 'CUR', 'loader:importer', 'the file an import is in is remembered as %s' % show(c, x), e['site'])
            rep.ob(y is not None and c(y) == 'listing(TEXT, IMP.source_range)', 'loader:listing', 'the place of an import is remembered as %s' % show(c, y), e['site'])
    rep.ob(not slots or pushed > 0, 'anchor:pushes', 'no import enters the worklist')


# ------------------------------------------------------------------ tokenizer
class Places(c17.Run):
    """the product of C17, looking at where errors are said to be"""
    n = 0

    def reported(self, o, e, rel, ctx, q, x, uc):
        c = self.c
        what = self.text(ctx, x)
        for t in o[2]:
            self.n += 1
            p, text, r = place({'args': (None,) + t})
            se = self.range_of(r) if isinstance(r, tuple) and r is not text else None
            path = ('param', next((i for i, y in enumerate(self.m.prog.raw[self.m.fn]['locals'][1:]) if str(y).endswith('std::path::Path')), 0))
            if p != path:
                self.fail('tokenizer:file', 'an error of the tokenizer names %s as its file (%s)' % (show(c, p), what))
            if text != self.m.S:
                self.fail('tokenizer:text', 'an error of the tokenizer shows %s (%s)' % (show(c, text), what))
                continue
            if not se or None in se:
                self.fail('tokenizer:range', 'an error of the tokenizer shows no range: %s' % show(c, r))
                continue
            if not self.is_at(se[0], 'T', 0, rel, e, x):
                self.fail('tokenizer:start:' + q, 'the range shown for %s begins at %s instead of its first character' % (what, c(se[0])[:120]))
            if not self.after(se[1], se[0], rel, e, x):
                self.fail('tokenizer:end:' + q, 'the range shown for %s ends at %s, which is not beyond its first character' % (what, c(se[1])[:160]))

    def after(self, t, start, rel, e, x):
        """does t lie beyond the start of the token, at most where the reading has got to?"""
        ms = self.marksof(t, rel, e)
        if any(mk == 'T' and d <= 0 for mk, d in ms):
            return False
        if any(mk in ('C', 'E') and d == 0 or mk == 'T' and d > 0 for mk, d in ms) or ('LEN', 0) in ms:
            return True
        d, k = to_lin(t)
        s, k0 = to_lin(start)
        rest = dict(d)
        for y, n in s.items():
            rest[y] = rest.get(y, 0) - n
        rest = {y: n for y, n in rest.items() if n}
        if not rest:
            return k - k0 == 1
        # the length of a character, or the next boundary after it
        if len(rest) == 1 and k == k0:
            (y, n), = rest.items()
            if n == 1 and is_t(y, 'call') and y[1].split('::')[-1] in ('len_utf8', 'len'):
                return True
        return is_t(t, 'vf') and contains(t, lambda y: is_t(y, 'call') and y[1].split('::')[-1] == 'next_boundary' and contains(y[2], lambda z: z == start))


def tokens(prog, rep):
    m = c17.machine(prog, rep)
    if m is None:
        return
    r = Places(m, rep)
    r.go()
    if not r.failed:
        rep.ob(r.n > 0, 'anchor:tokenizer', 'the tokenizer reports nothing')
        for i in range(r.n):
            rep.ob(True, 'tokenizer:error', '')


# ------------------------------------------------------------------ parser
def parser(prog, rep):
    at = {}

    def watch(a, e, st):
        if e['kind'] == 'call' and e['f'] == 'error::listing':
            p = st.store.get(a.root)
            at.setdefault((a.nt, e['site'], tuple(e['args'])), set()).add(p if p is not None else ('param', a.at['pos']))
    par = grammar.Parser(prog, rep, helpers=(), watch=watch)
    if not par.ok:
        return
    n = 0
    for nt in ('TYPE', 'FIELD', 'IMPORT', 'SCHEMA'):
        a = par.auto(nt)
        c = a.c
        for e in throws(a.an.events):
            n += 1
            p, text, r = place(e)
            rep.ob(p == ('param', a.at['path']), 'parser:file:' + nt, 'an error of the parser names %s as its file' % show(c, p), e['site'])
            if rep.ob(text == ('param', a.at['text']), 'parser:text:' + nt, 'an error of the parser shows %s' % show(c, text), e['site']):
                about(rep, a, e, r)
        for e in throws(a.an.events, 'error::listing'):
            where = at.get((nt, e['site'], tuple(e['args'])), ())
            one(rep, a, e, bare(e['rargs'][1]), where)
        nodes(rep, a, par)
    rep.ob(n >= 20, 'anchor:parser', 'the parser reports next to nothing')


def norm(a, t):
    """(base, offset) of a position; what a sub-parser has moved stays distinct from what it started from"""
    off = 0
    while is_t(t, 'lin') and len(t[1]) == 1 and t[1][0][1] == 1:
        off += t[2]
        t = t[1][0][0]
    if is_t(t, 'mut'):
        while is_t(t, 'mut'):
            t = t[1]
        return ('moved', norm(a, t)), off
    return t, off


def least(a, x, y):
    """the least difference between two positions, or None"""
    (bx, ox), (by, oy) = x, y
    if bx == by:
        return ox - oy
    if is_t(bx, 'moved'):
        r = least(a, bx[1], y)
        return None if r is None else r + ox
    if is_t(bx, 'phi') and (by == a.start or is_t(by, 'phi') and by[1] in a.an.nest.get(bx[1], ()) and by[1] != bx[1]):
        return ox - oy
    return None


def feasible(a, cj):
    """positions do not move backwards; one position is not both at the end and before it"""
    at_end = {}
    for lit, v in cj:
        t = lit[1]
        if lit[0] != 'n' or not is_t(t, 'lin'):
            continue
        pos = [x for x, n in t[1] if n == 1]
        neg = [x for x, n in t[1] if n == -1]
        if len(t[1]) != 2 or len(pos) != 1 or len(neg) != 1:
            continue
        if is_t(pos[0], 'call') and pos[0][1] == 'len' and strip(pos[0][2][0]) == a.TOK:
            n = norm(a, neg[0])
            lo, hi = min(x for x, y in v) - t[2] + n[1], max(y for x, y in v) - t[2] + n[1]
            old = at_end.get(n[0], (-INF, INF))
            at_end[n[0]] = new = (max(lo, old[0]), min(hi, old[1]))
            if new[0] > new[1]:
                return False
            continue
        x, y = norm(a, pos[0]), norm(a, neg[0])
        m = least(a, x, y)
        if m is not None and all(hi < m + t[2] for lo, hi in v):
            return False
        m = least(a, y, x)
        if m is not None and all(lo > t[2] - m for lo, hi in v):
            return False
    for x, (lo, _) in at_end.items():
        for y, (_, hi) in at_end.items():
            m = least(a, (x, 0), (y, 0))
            if x != y and m is not None and lo > hi - m:
                return False
    return True


def token_of(a, t):
    """the position whose token's range (or part of it) t is: (position, part)"""
    t = bare(t)
    part = None
    if is_t(t, 'f') and t[2] in ('start', 'end'):
        part, t = t[2], bare(t[1])
    if is_t(t, 'f') and t[2] == 'source_range' and is_t(bare(t[1]), 'idx') and strip(bare(t[1])[1]) == a.TOK:
        return norm(a, bare(t[1])[2]), part
    return None


def bare(t):
    while is_t(t, 'mut'):
        t = t[1]
    return t


def ends(a, cj, where):
    """do the conditions say that the position is (True) or may be (False) at the end of the tokens?"""
    for at, v in cj:
        t = at[1]
        if at[0] == 'n' and is_t(t, 'call') and t[1] == 'len' and strip(t[2][0]) == a.TOK and all(hi <= 0 for lo, hi in v):
            return True
        if at[0] == 'n' and is_t(t, 'lin'):
            co = dict(t[1])
            ln = [x for x in co if is_t(x, 'call') and x[1] == 'len' and strip(x[2][0]) == a.TOK]
            rest = [x for x in co if x not in ln]
            if len(ln) == 1 and co[ln[0]] == 1 and len(rest) == 1 and co[rest[0]] == -1:
                b, k = norm(a, rest[0])
                # len - rest + t[2] <= hi
                for wb, wk in where:
                    if b == wb and all(hi - t[2] + k <= wk for lo, hi in v):
                        return True
    return False


def examined(a, cj):
    out = {}
    for at, v in cj:
        t = at[1]
        if at[0] == 'is' and is_t(t, 'f') and t[2] == 'variant' and is_t(bare(t[1]), 'idx') and strip(bare(t[1])[1]) == a.TOK:
            b, k = norm(a, bare(t[1])[2])
            out.setdefault(b, set()).add(k)
    return out


def impossible(a, cj):
    return not feasible(a, cj) or any(at[0] == 'n' and is_t(at[1], 'call') and at[1][1] == 'len' and strip(at[1][2][0]) == a.TOK and all(hi <= 0 for lo, hi in v) for at, v in cj)


def about(rep, a, e, r):
    """the tokens an error shows are those its message speaks of"""
    c, nt = a.c, a.nt
    guard = [cj for cj in e['guard'] if not impossible(a, cj)]
    if not guard:
        return
    talk, subs = set(), set()
    for t in walk(strip(e['args'][0])):
        if is_t(t, 'idx') and t[1] == a.TOK:
            talk.add(norm(a, t[2]))
        elif is_t(t, 'call') and t[1] in a.par.nt:
            subs.add(t)
    for t in subs:
        rep.ob(r in (('f', ('f', ('vf', t, 'Some', '0'), '1'), 'source_range'), ('f', ('vf', t, 'Some', '0'), 'source_range')), 'parser:sub:' + nt,
               'an error about what was just parsed shows %s' % show(c, r), e['site'])
    if subs or not talk:
        return
    tk = token_of(a, r)
    if tk is not None and tk[1] is None:
        rep.ob(talk == {tk[0]}, 'parser:token:' + nt, 'an error that speaks of the token %s shows the token %s' % (', '.join(at_(c, k) for k in talk), at_(c, tk[0])), e['site'])
        return
    s, n = (token_of(a, dict(r[3]).get(k)) for k in ('start', 'end')) if is_t(r, 'agg') else (None, None)
    ok = s and n and s[1] == 'start' and all(b == s[0][0] == n[0][0] and s[0][1] <= k <= n[0][1] for b, k in talk)
    rep.ob(ok, 'parser:token:' + nt, 'an error that speaks of the token %s shows %s' % (', '.join(at_(c, k) for k in talk), show(c, r)), e['site'])


def flat(k):
    b, o = k
    while is_t(b, 'moved'):
        b, o = b[1][0], o + b[1][1]
    return b, o


def at_(c, k):
    b, o = k
    if is_t(b, 'moved'):
        return 'after what follows ' + at_(c, b[1])
    return '%s%+d' % (c(b), o)


def one(rep, a, e, r, where):
    """one place that is shown by the parser: it is where the parser is"""
    c, nt = a.c, a.nt
    here = {norm(a, p) for p in where}
    guard = [cj for cj in e['guard'] if not impossible(a, cj)]
    tk = token_of(a, r)
    if tk is not None and tk[1] is None:
        k = tk[0]
        for cj in guard:
            ex = examined(a, cj)
            ok = (k in here or k[0] in ex and k[1] == max(ex[k[0]])) and k[1] in ex.get(k[0], ())
            # the same position under the name it had before a sub-parser may have moved it
            ok = ok or flat(k) in {flat(x) for x in here} & {flat((b, o)) for b, v in ex.items() for o in v}
            rep.ob(ok, 'parser:position:' + nt, 'an error shows the token at %s although the parser is at %s and has examined %s; if %s' % (
                at_(c, k), sorted(at_(c, x) for x in here), sorted(at_(c, (b, o)) for b, v in ex.items() for o in v), c.show([cj])[:200]), e['site'])
        return
    t = r[1] if is_t(r, 'f') and r[2] == 'source_range' else None
    while is_t(t, 'f') or is_t(t, 'vf') or is_t(t, 'mut'):
        t = t[1]
    if isinstance(t, tuple) and t[0] in ('call', 'callm') and t[1] in a.par.nt:
        return  # compared with the message
    if is_t(r, 'agg') and dict(r[3]).keys() >= {'start', 'end'}:
        d = dict(r[3])
        s, n = token_of(a, d['start']), token_of(a, d['end'])
        last = ('lin', ((('call', 'len', (a.TOK,)), 1),), -1)
        if s and n and s[0] == n[0] == norm(a, last) and s[1] == n[1] == 'end' or (d['start'], d['end']) == (('const', 0), ('const', 0)):
            for cj in guard:
                rep.ob(ends(a, cj, here), 'parser:end:' + nt, 'an error shows the end of the file although there may be tokens left; if %s' % c.show([cj])[:200], e['site'])
            return
        if s and n and s[1] == 'start' and n[1] == 'end' and s[0][0] == n[0][0]:
            for cj in guard:
                ex = examined(a, cj).get(s[0][0], set())
                rep.ob(s[0][1] in ex and n[0][1] in ex and s[0][1] <= n[0][1], 'parser:span:' + nt, 'an error shows the tokens from %s to %s, of which not all were examined' % (at_(c, s[0]), at_(c, n[0])), e['site'])
            return
    rep.fail('parser:range:' + nt, 'an error of the parser shows %s, which is not the range of a token' % show(c, r), e['site'])


def nodes(rep, a, par):
    """the ranges that nodes of the syntax tree claim"""
    nt = a.nt
    n = 0
    if nt != 'SCHEMA':
        for e in a.edges:
            if e['err'] or e['dst'] != 'ret' or not (is_t(e['rv'], 'agg') and e['rv'][2] == 'Some') or e['src'] != a.start:
                continue
            v = e['rv'][3][0][1]
            if nt == 'IMPORT':
                if not (is_t(v, 'tuple') and len(v[1]) == 2):
                    continue
                v = v[1][1]
            if not feasible(a, e['cj']):
                continue
            r = c15.Row(a, e)
            d = c15.field(v, 'source_range')
            if not r.pos:
                continue
            n += 1
            span(rep, a, d, [norm(a, r.pos[0])] + ([norm(a, r.pos[1])] if len(r.pos) > 1 and r.items[0] == frozenset(['Comment']) else []), norm(a, r.pos[-1]), nt.lower(), '')
    else:
        for e in a.an.events:
            if e['kind'] != 'call' or e.get('local') or len(e['args']) < 2:
                continue
            v = c15.strip_top(e['args'][1])
            if not (is_t(v, 'agg') and v[1] == 'schema::Declaration') or not e['loops']:
                continue
            head = ('phi', e['loops'][-1], a.root)
            for cj in e['guard']:
                if not feasible(a, cj):
                    continue
                toks = a.decode(cj)[0]
                first = [(head, 0)] + ([(head, 1)] if toks.get(head, {}).get(0) == frozenset(['Comment']) else [])
                last = {(norm(a, b)[0], norm(a, b)[1] + o) for b, d in toks.items() for o, s in d.items() if s == frozenset(['RightCurly'])}
                n += 1
                d = c15.field(v, 'source_range')
                x = token_of(a, dict(d[3]).get('end')) if is_t(d, 'agg') else None
                rep.ob(x is not None and x[1] == 'end' and x[0] in last, 'node:declaration:end', 'a declaration claims the text up to %s instead of its closing brace' % a.c(d)[:200], e['site'])
                s = token_of(a, dict(d[3]).get('start')) if is_t(d, 'agg') else None
                rep.ob(s is not None and s[1] == 'start' and s[0] in first, 'node:declaration:start', 'a declaration claims the text from %s' % a.c(d)[:200], e['site'])
    rep.ob(n > 0, 'anchor:nodes:' + nt, 'the parser makes no %s' % nt.lower())


def span(rep, a, d, first, last, what, site):
    if not is_t(d, 'agg'):
        t = token_of(a, d) if d is not None else None
        rep.ob(t is not None and t[1] is None and t[0] == last and t[0] in first, 'node:' + what, 'a %s claims the range %s' % (what, a.c(d)[:160] if d else 'nothing'), site)
        return
    d = dict(d[3])
    s, n = token_of(a, d.get('start')), token_of(a, d.get('end'))
    rep.ob(s is not None and s[1] == 'start' and s[0] in first, 'node:%s:start' % what, 'a %s claims the text from %s instead of its first token' % (what, a.c(d.get('start'))[:160]), site)
    rep.ob(n is not None and n[1] == 'end' and n[0] == last, 'node:%s:end' % what, 'a %s claims the text up to %s instead of its last token' % (what, a.c(d.get('end'))[:160]), site)


# ------------------------------------------------------------------ what is made of it
def message(prog, rep):
    """an error holds its message, path, listing and reason"""
    an, rets = analyze(rep, prog, 'error::throw', errty='-', build_strings=True)
    if an is None:
        return
    c = Canon()
    parts = {0: 'the message', 1: 'the path', 2: 'the listing', 3: 'the reason'}
    for st, rv in rets:
        v = strip(rv)
        for cj in st.guard:
            lits = {c.lit(x, y) for x, y in cj}
            for i, what in parts.items():
                if i and 'arg%d is Some' % i not in lits:
                    rep.ob(not i or 'arg%d is None' % i in lits, 'throw:undecided', 'whether an error has %s is not examined' % what)
                    continue
                if i == 2 and any(x.startswith('len(arg2.Some) in [0,0]') for x in lits):
                    continue
                t = ('param', 0) if i == 0 else ('vf', ('param', i), 'Some', '0')
                rep.ob(contains(v, lambda x: x == t), 'throw:%d' % i, 'an error is made without %s, if %s' % (what, '; '.join(sorted(lits))))
    fn = next((n for n in prog.raw if n.endswith('<error::Error as std::fmt::Display>::fmt')), None)
    if not rep.ob(fn is not None, 'anchor:display', 'errors cannot be shown'):
        return
    an, rets = analyze(rep, prog, fn, minus={fn}, errty='-')
    if an is None:
        return
    for v in ('None', 'Some'):
        shown = set()
        for e in an.events:
            texts = e['pieces'] if e['kind'] == 'write' else tuple(e['args'][1:]) if e['kind'] == 'call' and e['args'] and bare(e['args'][0]) == ('param', 1) else ()
            if any(all(c.lit(x, y) == 'arg0.reason is ' + v for x, y in cj) for cj in e['guard']):
                shown |= {t[2] for t in walk(strip(tuple(texts))) if is_t(t, 'f') and t[1] == ('param', 0)}
        rep.ob('message' in shown, 'display:message', 'an error is shown without its message, if its reason is %s' % v)
        rep.ob(v == 'None' or 'reason' in shown, 'display:reason', 'an error is shown without its reason')


def peel(t):
    """a stretch of text without colours"""
    t = strip(t)
    while is_t(t, 'call') and t[1].split('::')[-1] in ('red', 'blue', 'bold', 'magenta', 'green', 'yellow', 'cyan', 'underline', 'normal', 'to_string', 'deref', 'as_ref', 'dimmed'):
        t = strip(t[2][0])
    return t


def listing(prog, rep):
    an, rets = analyze(rep, prog, 'error::listing', errty='-')
    if an is None:
        return
    c = Canon()
    split = lambda t: is_t(t, 'call') and (t[1], t[2][0]) == ('str::split', ('param', 0)) and t[2][1] in (('const', 10), ('const', '\n'))
    line = lambda t: is_t(t, 'elem') and split(t[1])
    pushes = [e for e in an.events if e['kind'] == 'call' and e['f'] in ('Vec::push',) and contains(strip(e['args'][1]), line)]
    if not rep.ob(bool(pushes) and len({e['loops'] for e in pushes}) == 1 and len(pushes[0]['loops']) == 1, 'anchor:listing', 'the lines of a listing are not collected in one loop over the lines of the text'):
        return
    L = pushes[0]['loops'][0]
    src = {base(e['rargs'][0]) for e in pushes}
    # the offset of a line: a counter that starts at 0 and grows by the length of each line and its end
    counters = set()
    for r in an.mods.get(L, {}):
        ini = {strip(st.store.get(r)) if st.store.get(r) is not None else None for st in an.entries[L]}
        nxt = {strip(st.store.get(r)) if st.store.get(r) is not None else None for st in an.latches.get(L, [])}
        if len(nxt) != 1 or None in nxt or None in ini:
            continue
        d, k = to_lin(next(iter(nxt)))
        if ini <= {('const', 0), ('const', False)} and k == 1 and len(d) == 2 and set(d.values()) == {1} and any(is_t(x, 'phi') and x[1:] == (L, r) for x in d) and \
                any(is_t(x, 'call') and x[1] == 'len' and line(strip(x[2][0])) for x in d):
            counters.add(('phi', L, r))
    rep.ob(bool(counters), 'listing:offset', 'no variable follows the offset of the lines in the text')
    if not counters:
        return
    S, E = ('f', ('param', 1), 'start'), ('f', ('param', 1), 'end')

    def lin(t, env):
        d, k = to_lin(t)
        for x, n in d.items():
            if x in counters:
                k += n * env[0]
            elif is_t(x, 'call') and x[1] == 'len' and line(strip(x[2][0])):
                k += n * env[1]
            elif x == S:
                k += n * env[2]
            elif x == E:
                k += n * env[3]
            else:
                return None
        return k

    def holds(cj, env, free):
        """does the condition hold? free atoms by the given valuation"""
        for a, v in cj:
            if a[0] == 'is' and is_t(a[1], 'next') and a[1][2] == L:
                continue
            a2 = (a[0], strip(a[1]))
            if a[0] == 'n':
                k = lin(a2[1], env)
                if k is not None:
                    if not any(lo <= k <= hi for lo, hi in v):
                        return False
                    continue
            if a2 not in free:
                free[a2] = None
            if free[a2] is not None and free[a2] not in [tuple(sorted(map(str, v)))]:
                return False
        return True
    shown = [(cj, e) for e in pushes for cj in e['guard']]
    exits = [cj for st, rv in rets for cj in st.guard if not any(a[0] == 'is' and is_t(a[1], 'next') and a[1][2] == L and v == frozenset(['None']) for a, v in cj)]
    # splits on things that are not offsets must be covered entirely: group by them
    grid = [(P, N, s, n) for P in range(0, 6) for N in range(0, 4) for s in range(0, 9) for n in range(s, 9)]
    bad = {}
    for env in grid:
        P, N, s, n = env
        hit = [cj for cj, e in shown if holds(cj, env, {})]
        meets = P < n and P + N >= s and s < n
        apart = P >= n and P > s or P + N < s
        if meets:
            # every valuation of the other conditions
            atoms = {}
            for cj in hit:
                for a, v in cj:
                    a2 = (a[0], strip(a[1]))
                    if not (a[0] == 'is' and is_t(a[1], 'next')) and not (a[0] == 'n' and lin(a2[1], env) is not None):
                        atoms.setdefault(a2, set()).add(tuple(sorted(map(str, v))))
            keys = list(atoms)
            ok = bool(hit)
            for vals in itertools.product(*[sorted(atoms[k]) for k in keys]):
                fr = dict(zip(keys, vals))
                ok = ok and any(holds(cj, env, dict(fr)) for cj in hit)
            if keys:
                ok = ok and all(len(atoms[k]) >= 2 for k in keys)
            if not ok:
                bad.setdefault('listing:missing', 'a line that meets the range is not shown: line at offset %d with %d bytes, range %d to %d' % env)
        elif apart and hit:
            bad.setdefault('listing:extra', 'a line outside the range is shown: line at offset %d with %d bytes, range %d to %d' % env)
        if any(holds(cj, env, {}) for cj in exits) and not P >= n:
            bad.setdefault('listing:stops', 'the search for lines stops before the end of the range: at offset %d, range %d to %d' % (P, s, n))
    for k in ('listing:missing', 'listing:extra', 'listing:stops'):
        rep.ob(k not in bad, k, bad.get(k, ''))
    # what is kept of a line
    num = txt = None
    for e in pushes:
        v = strip(e['args'][1])
        parts = dict(enumerate(v[1])) if is_t(v, 'tuple') else dict(v[3]) if is_t(v, 'agg') else {}
        for k, x in parts.items():
            x = strip(x)
            if line(x) or is_t(x, 'call') and x[1] in ('str::trim_end', 'str::trim_end_matches') and line(strip(x[2][0])):
                txt = str(k)
            elif contains(x, lambda y: is_t(y, 'pos')):
                d = [y for y in walk(x) if is_t(y, 'lin') or is_t(y, 'pos')]
                ok = c(x) in ('f"{(pos +1)}"', '(pos +1)', 'to_string((pos +1))')
                rep.ob(ok, 'listing:number', 'the number of a line is %s instead of its place counted from 1' % c(x)[:100], e['site'])
                num = str(k)
        section(rep, c, e, parts, counters, lin, line)
    if not rep.ob(num is not None and txt is not None, 'anchor:line', 'the number and the text of a line are not kept together: %s' % c(pushes[0]['args'][1])[:200]):
        return
    # what is shown of it
    seen = 0
    mine = {strip(x) for x in src} | src
    shown = []
    for st, rv in rets:
        for it in walk(strip(rv)):
            if is_t(it, 'iter') and it[1] in ('collect', 'for_each', 'fold', 'map') and base(it[2]) in mine:
                shown.append(it[3])
        # a loop that puts what it shows into a list, which is the result
        for b in {base(x) for x in walk(strip(rv)) if is_t(x, 'new') or is_t(x, 'mut')}:
            ps = [e for e in an.events if e['kind'] == 'call' and e.get('rargs') and not e.get('local') and base(e['rargs'][0]) == b and e['f'] == 'Vec::push' and len(e['loops']) == 1]
            every = dnf_simplify([frozenset((a, v) for a, v in cj if not (a[0] == 'is' and is_t(a[1], 'next'))) for e in ps for cj in e['guard']])
            of = {base(strip(a[1][1])) for e in ps for cj in e['guard'] for a, v in cj if a[0] == 'is' and is_t(a[1], 'next') and a[1][2] == e['loops'][0]}
            if ps and len({e['loops'] for e in ps}) == 1 and every == {frozenset()} | set() and all(x in mine or is_t(x, 'call') and base(x[2][0]) in mine for x in of):
                shown.append([strip(e['rargs'][1]) for e in ps])
    for alts in shown:
        for alt in alts:
            flat = leaves(alt)
            if not any(is_t(p, 'slice') or is_t(p, 'f') and p[2] == txt for p in flat):
                continue
            seen += 1
            of = lambda p, k: is_t(p, 'f') and p[2] == k and is_t(strip(p[1]), 'elem') and base(strip(p[1])[1]) in {strip(s) for s in src} | src
            rep.ob(any(contains(p, lambda y: of(y, num)) for p in flat[:2]), 'listing:shows-number', 'a line is shown without its number: %s' % c(alt)[:200])
            cut = [p for p in flat if is_t(p, 'slice') and of(strip(p[1]), txt) or of(p, txt)]
            at = [i for i, p in enumerate(flat) if p in cut]
            whole = at == list(range(at[0], at[0] + len(at))) if at else False
            pos = []
            for p in cut:
                if of(p, txt):
                    pos.append((None, None))
                else:
                    d = dict(strip(p[2])[3]) if is_t(strip(p[2]), 'agg') else {'?': 1}
                    pos.append((c(d['start']) if 'start' in d else None, c(d['end']) if 'end' in d else None))
            ok = whole and pos and pos[0][0] is None and pos[-1][1] is None and all(x[1] == y[0] and x[1] is not None for x, y in zip(pos, pos[1:]))
            rep.ob(ok, 'listing:whole', 'a line is not shown whole: pieces %s' % pos)
    rep.ob(seen > 0, 'anchor:shown', 'the lines collected for a listing are not shown')


def leaves(t):
    """the text a format string is made of, in order"""
    t = peel(t)
    if is_t(t, 'fstr') or is_t(t, 'fmt'):
        out = []
        for p in t[1]:
            out += [('const', p[1])] if p[0] == 's' else leaves(p[2])
        return out
    return [t]


def section(rep, c, e, parts, counters, lin, line):
    """the part of the line that is marked: from the start of the range (or the first character) to its end"""
    offs = [strip(x) for k, x in sorted(parts.items(), key=lambda kv: str(kv[0]))]
    offs = [x for x in offs if not line(x) and not (is_t(x, 'call') and x[1].startswith('str::trim')) and not contains(x, lambda y: is_t(y, 'pos'))]
    if len(offs) != 2:
        return
    P = ('f', ('param', 1))

    def cut(x, k):
        """min(range.k - offset, length of the line)"""
        if not (is_t(x, 'call') and x[1].split('::')[-1] == 'min' and len(x[2]) == 2):
            return False
        a = [y for y in x[2] if to_lin(strip(y))[0] and set(to_lin(strip(y))[0].values()) == {1, -1}]
        b = [y for y in x[2] if y not in a]
        if len(a) != 1 or len(b) != 1:
            return False
        d, n = to_lin(strip(a[0]))
        pos = [y for y, m in d.items() if m == 1]
        neg = [y for y, m in d.items() if m == -1]
        return n == 0 and pos == [('f', ('param', 1), k)] and neg[0] in counters and is_t(strip(b[0]), 'call') and strip(b[0])[1] == 'len' and contains(b[0], line)
    rep.ob(cut(offs[1], 'end'), 'listing:section-end', 'the marked part of a line ends at %s' % c(offs[1])[:160], e['site'])
    for cj in e['guard']:
        inside = None
        for a, v in cj:
            if a[0] == 'n':
                d, k = to_lin(strip(a[1]))
                if set(d) <= set(counters) | {('f', ('param', 1), 'start')} and len(d) == 2:
                    vals = [any(lo <= (d[('f', ('param', 1), 'start')] * dd + k) <= hi for lo, hi in v) for dd in (-1, 0, 1)]
                    if vals[2] and not vals[0]:
                        inside = True
                    elif vals[0] and not vals[2]:
                        inside = False
        if inside is not False:
            rep.ob(cut(offs[0], 'start'), 'listing:section-start', 'the marked part of a line in which the range begins starts at %s' % c(offs[0])[:160], e['site'])
        else:
            rep.ob(offs[0] in (offs[1], ('const', 0)) or contains(offs[0], lambda y: is_t(y, 'call') and y[1].split('::')[-1] in ('find', 'position', 'trim_start')), 'listing:section-start',
                   'the marked part of a line before which the range begins starts at %s' % c(offs[0])[:160], e['site'])


def check(prog, rep):
    validator(prog, rep)
    load(prog, rep)
    tokens(prog, rep)
    parser(prog, rep)
    message(prog, rep)
    listing(prog, rep)
