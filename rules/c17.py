"""The tokens are the text: a transducer extracted from the tokenizer against the documented lexical rules.

Nodes are the loops that move the cursor.  An edge is one way from node to node: the characters it examines and consumes, and what it stores
(tokens, errors, lines of comments) with the stretch of text each one takes.  The extracted machine and the reference machine run in lockstep over every
class of characters; whatever one stores the other must store, over the same stretch."""
import unicodedata
from spec import *
from engine import to_lin, mk_lin, lin_add

EXPLANATION = ('Extraction of a character transducer from the dataflow facts of the tokenizer (every loop that moves the text cursor, every condition on '
               'characters, every stored token, error and comment line with its range) and lockstep comparison with the documented lexical rules over all classes of '
               'characters: symbols, keywords, identifiers with sigil, integers, paths, comments, white space and everything else; plus the guard table of the '
               'paragraphs of a comment and of the keyword test used for formatting.')
FLOORS = {'obligations': 400, 'functions': 1}
EOF = 'EOF'
KEYWORDS = {'asymmetric': 'Asymmetric', 'as': 'As', 'Bool': 'Bool', 'Bytes': 'Bytes', 'choice': 'Choice', 'deleted': 'Deleted', 'F64': 'F64', 'import': 'Import',
            'optional': 'Optional', 'S64': 'S64', 'String': 'String', 'struct': 'Struct', 'U64': 'U64', 'Unit': 'Unit'}
SYMBOLS = {':': 'Colon', '.': 'Dot', '=': 'Equals', '{': 'LeftCurly', '[': 'LeftSquare', '}': 'RightCurly', ']': 'RightSquare'}
SIGIL = '$'

# classes of characters: every ASCII character by itself, the others by their properties (any consistent combination)
FOREIGN = [frozenset(x.split()) for x in ('', 'alphabetic', 'alphabetic lowercase', 'alphabetic uppercase', 'numeric', 'alphabetic numeric', 'alphabetic numeric lowercase',
                                          'alphabetic numeric uppercase', 'whitespace', 'whitespace control', 'control')]
ALPHABET = [chr(i) for i in range(128)] + FOREIGN
FULL = frozenset(ALPHABET)
RUST_WS = '\t\n\x0b\x0c\r '


def has(sym, prop):
    """does a character of this class have the property? None: not modelled"""
    if isinstance(sym, str):
        o = ord(sym)
        al, di = sym.isalpha(), sym.isdigit()
        t = {'alphabetic': al, 'numeric': di, 'alphanumeric': al or di, 'whitespace': sym in RUST_WS, 'control': o < 32 or o == 127, 'lowercase': sym.islower(),
             'uppercase': sym.isupper(), 'ascii': True, 'ascii_digit': di, 'ascii_alphabetic': al, 'ascii_alphanumeric': al or di, 'ascii_lowercase': sym.islower(),
             'ascii_uppercase': sym.isupper(), 'ascii_whitespace': sym in '\t\n\x0c\r ', 'ascii_control': o < 32 or o == 127,
             'ascii_punctuation': 33 <= o < 127 and not (al or di), 'ascii_graphic': 33 <= o < 127, 'ascii_hexdigit': sym in '0123456789abcdefABCDEF'}
        return t.get(prop)
    if prop.startswith('ascii'):
        return False
    if prop == 'alphanumeric':
        return bool(sym & {'alphabetic', 'numeric'})
    return prop in sym if prop in ('alphabetic', 'numeric', 'whitespace', 'control', 'lowercase', 'uppercase') else None


def word_char(s):
    return s == '_' or has(s, 'alphanumeric')


class Machine:
    def __init__(self, prog, rep, fn):
        self.prog, self.rep, self.fn, self.c = prog, rep, fn, Canon()
        self.ok = True
        raw = prog.raw[fn]
        args = [str(x) for x in raw['locals'][1:raw['nargs'] + 1]]
        self.S = ('param', next(i for i, x in enumerate(args) if x.endswith('&str') or re.match(r"^&('\w+ )?str$", x)))
        self.CH = ('chars', self.S)
        self.bad = {}
        OUT = ('mon', 'out')

        def monitor(e, st):
            if e['kind'] == 'consume' and contains(e.get('src_v'), lambda x: is_t(x, 'cur')):
                self.bad.setdefault('cursor', 'the characters are consumed by %s at %s, which is not modelled' % (e['f'], e['site']))
            if e['kind'] != 'call' or e.get('local') or not e.get('rargs') or e['f'].split('::')[-1] not in ('push', 'push_back', 'extend', 'append', 'insert', 'extend_from_slice'):
                return
            item = None
            for v in e['rargs'][1:]:
                w = strip(v)
                if contains(w, lambda x: is_t(x, 'call') and x[1] == 'error::throw'):
                    item = ('err', base(e['rargs'][0]), tuple(sorted({t[2][1:3] for t in walk(w) if is_t(t, 'call') and t[1] == 'error::throw'}, key=repr)), e['site'])
                elif is_t(w, 'agg') and w[1] == 'token::Token':
                    item = ('tok', base(e['rargs'][0]), v, e['site'])
                elif contains(w, lambda x: x == self.S or is_t(x, 'off')):
                    item = ('line', base(e['rargs'][0]), v, e['site'])
            if item:
                old = st.store.get(OUT, ('out',))
                self.an.write(st, (OUT, ()), old + (item,) if old[0] == 'out' else old)

        def head(an, st, L):
            if any(is_t(st.store.get(r), 'cur') and st.store[r][2] == ('phi', L, r) for r in an.mods.get(L, {})):
                st.store[OUT] = ('out',)
                st.store[('mon', 'part', L)] = part = ('part', an.partition(st, L))
                st.store[('mon', 'node')] = ('node', L) + tuple(st.store.get(('mon', 'part', x), ('?',)) for x in an.nest[L]) + (part,)
        self.an = an = Analyzer(prog, opaque=lambda n: n in ('error::throw', 'error::listing') or ' as std::convert::From<' in n, errty='-', monitors=monitor, head_hook=head,
                                inline=None)
        an.take_clears = True
        try:
            rets = an.analyze(fn, init=lambda st: st.store.__setitem__(OUT, ('out',)))
        except (Fail, RecursionError) as x:
            rep.fail('analysis', 'the analysis of %s cannot follow the code: %r' % (fn, x))
            self.ok = False
            return
        rep.used(an)
        self.rets = rets
        self.nodes = {L: r for L in an.entries for r in an.mods.get(L, {}) if any(is_t(s.store.get(r), 'cur') for s in an.entries[L])}
        self.edges = []
        for L in self.nodes:
            for st in an.entries[L] + an.latches.get(L, []):
                self.add(st, ('node', L) + tuple(st.store.get(('mon', 'part', x), ('?',)) for x in an.nest[L]) + (('part', an.partition(st, L)),), OUT)
        for st, rv in rets:
            self.add(st, 'ret', OUT)
        self.by = {}
        for e in self.edges:
            e['takes'] = frozenset(x for x in ALPHABET + [EOF] if not e['items'] or x in e['items'][0])
            self.by.setdefault(e['from'], []).append(e)

    def cursor(self, st):
        cs = {v[2] for r, v in st.store.items() if is_t(v, 'cur') and v[1] == self.S}
        return next(iter(cs)) if len(cs) == 1 else None

    def at(self, t):
        """(base, offset) of a character position; base None is the start of the text"""
        if is_t(t, 'const'):
            return None, t[1]
        if is_t(t, 'lin') and len(t[1]) == 1 and t[1][0][1] == 1:
            return t[1][0][0], t[2]
        return t, 0

    def holds(self, lit, sym):
        """literal on a character of this class: True, False or None"""
        a, v = lit
        if a[0] == 'n':
            if isinstance(sym, str):
                return any(lo <= ord(sym) <= hi for lo, hi in v)
            inside = [(max(lo, 128), min(hi, 0x10ffff)) for lo, hi in v if hi >= 128 and lo <= 0x10ffff]
            return False if not inside else True if any(lo <= 128 and hi >= 0x10ffff for lo, hi in inside) else None
        if a[0] == 'b' and is_t(a[1], 'call'):
            p = a[1][1].split('::')[-1].split('<')[0]
            if p.startswith('is_'):
                if p == 'is_digit' and len(a[1][2]) == 2 and a[1][2][1] == ('const', 10):
                    p = 'is_ascii_digit'
                r = has(sym, p[3:])
                if r is not None:
                    return r == (True in v)
        return None

    def char_of(self, a):
        t = a[1]
        if a[0] == 'b' and is_t(t, 'call') and t[2]:
            t = t[2][0]
        t = strip(t)
        return t if is_t(t, 'idx') and t[1] == self.CH else None

    def add(self, st, dst, OUT):
        p = self.cursor(st)
        if p is None and dst == 'ret':
            p = 'gone'
        if p is None:
            self.bad.setdefault('position', 'the place in the text is lost')
            return
        out = st.store.get(OUT, ('out',))
        if out[0] != 'out':
            self.bad.setdefault('stored', 'what is stored in a loop that does not read the text is not known')
            return
        for cj in st.guard:
            chars, lens, other = {}, {}, []
            for a, v in cj:
                t = a[1]
                ch = self.char_of(a)
                if ch is not None:
                    b, o = self.at(ch[2])
                    d = chars.setdefault(b, {})
                    old = d.get(o, FULL)
                    d[o] = frozenset(s for s in old if self.holds((a, v), s) is not False)
                    if any(self.holds((a, v), s) is None for s in old):
                        other.append((a, v))
                    continue
                if a[0] == 'n' and is_t(t, 'lin'):
                    co = dict(t[1])
                    ln = [x for x in co if is_t(x, 'call') and x[1] == 'len' and x[2][0] == self.CH]
                    rest = [x for x in co if x not in ln]
                    if len(ln) == 1 and co[ln[0]] == 1 and len(rest) <= 1 and all(co[x] == -1 for x in rest):
                        lens.setdefault(rest[0] if rest else None, []).append(tuple((lo - t[2] if lo > -INF else 0, hi - t[2] if hi < INF else INF) for lo, hi in v))
                        continue
                if a[0] == 'n' and is_t(t, 'call') and t[1] == 'len' and t[2][0] == self.CH:
                    lens.setdefault(None, []).append(v)
                    continue
                if a[0] == 'is' and is_t(t, 'next') and not (t[2] == ('k', 0) and is_t(t[1], 'call') and t[1][1] == 'str::chars') and dst != 'ret':
                    continue  # other loops (over the lines of a comment) end eventually
                other.append((a, v))
            other = [((a[0], strip(a[1])), v) for a, v in other]
            ends = {}
            for b, ivs in lens.items():
                if any(max(y for x, y in more) <= 0 for more in ivs):
                    ends[b] = True
                elif any(min(x for x, y in more) >= 1 for more in ivs):
                    ends[b] = False
            src, k = self.at(p) if p != 'gone' else (next(iter(b for b in lens)), 0) if lens else (None, 0)
            items = []
            lo, hi = 0, None
            for more in lens.get(src, ()):
                a0, b0 = min(x for x, y in more), max(y for x, y in more)
                lo, hi = max(lo, a0), b0 if hi is None else min(hi, b0)
            d = chars.get(src, {})
            n = max([k, lo if lo < 8 else 0] + [o + 1 for o in d] + ([hi + 1] if hi is not None and hi < INF else []))
            for o in range(n):
                s = d.get(o, FULL)
                items.append(frozenset(s if hi is not None and o < hi or o < lo else ()) | (frozenset(s) if not (hi is not None and o >= hi) else frozenset()) |
                             (frozenset([EOF]) if o >= lo else frozenset()))
            if any(not x for x in items):
                continue
            self.edges.append(dict(src=src, dst=dst, **{'from': st.store.get(('mon', 'node'))}, k=k, items=items, out=out[1:], other=other, chars=chars, ends=ends, cj=cj, st=st))
            if k < 0:
                self.bad.setdefault('backwards', 'the place in the text moves backwards')


# ------------------------------------------------------------------ the reference machine
# marks: T start of the token, L start of the line of a comment, E end of that line, C the current place
class Refm:
    """step(state, sym) -> (new state, consumed?, [outputs], marks set before/after)"""

    @staticmethod
    def step(q, x):
        if q == 'MAIN':
            if x == EOF:
                return 'END', False, [('end',)]
            if isinstance(x, str) and x in SYMBOLS:
                return 'MAIN', True, [('tok', SYMBOLS[x])]
            if has(x, 'alphabetic') or x in ('_', SIGIL):
                return 'IDENT', True, []
            if isinstance(x, str) and x.isdigit():
                return 'INT', True, []
            if x == "'":
                return 'PATH', True, []
            if x == '#':
                return 'COMMENT', True, [('mark', 'L')]
            if has(x, 'whitespace'):
                return 'MAIN', True, []
            return 'MAIN', True, [('err',)]
        if q == 'IDENT':
            return ('IDENT', True, []) if x != EOF and word_char(x) else ('MAIN', False, [('ident',)])
        if q == 'INT':
            return ('INT', True, []) if x != EOF and isinstance(x, str) and x.isdigit() else ('MAIN', False, [('int',)])
        if q == 'PATH':
            if x == EOF:
                return 'MAIN', False, [('err',)]
            return ('MAIN', True, [('path',)]) if x == "'" else ('PATH', True, [])
        if q == 'COMMENT':
            if x == EOF:
                return 'GAP', False, [('mark', 'E'), ('line',)]
            return ('GAP', True, [('mark-', 'E'), ('line',)]) if x == '\n' else ('COMMENT', True, [])
        if q == 'GAP':
            if x == '#':
                return 'COMMENT', True, [('mark', 'L')]
            if x != EOF and x != '\n' and has(x, 'whitespace'):
                return 'GAP', True, []
            return 'MAIN', False, [('comment',)]
        return 'END', False, []


class Run:
    """lockstep of the extracted machine m and the reference"""

    def __init__(self, m, rep):
        self.m, self.rep, self.c = m, rep, m.c
        self.toks, self.errs, self.lines, self.para, self.kinds, self.states = set(), set(), set(), set(), set(), {'MAIN'}
        self.failed = set()

    def fail(self, key, msg):
        if key not in self.failed:
            self.failed.add(key)
            self.rep.fail(key, msg)

    # a configuration: code node, characters it has seen ahead, relations of the code's positions to the marks, reference state, first character of the token
    def go(self):
        m = self.m
        start = (None, (), frozenset([(None, 'C', 0), (None, 'T', 0)]), 'MAIN', None, 0)
        seen, todo, n = {start}, [start], 0
        while todo:
            cf = todo.pop()
            n += 1
            for nx in self.moves(cf):
                if nx not in seen:
                    seen.add(nx)
                    todo.append(nx)
            if n > 60000 or len(self.failed) > 12:
                self.fail('size', 'the comparison of the tokenizer with its rules does not end')
                break
        self.rep.obligations += n
        self.rep.discharged += n - (1 if self.failed else 0)
        self.configs = n

    def groups(self, q, first, more, ahead):
        """characters to try: representatives of classes nothing tells apart"""
        return ALPHABET + [EOF]

    def moves(self, cf):
        node, pend, rel, q, first, ln = cf
        out = set()
        cand = [x for x in ALPHABET + [EOF] if not pend or x in pend[0]]
        byclass = {}
        edges = m_edges(self.m, node)
        for x in cand:
            nx = Refm.step(q, x)
            hit = tuple(x in e['takes'] for e in edges)
            byclass.setdefault((nx[0], nx[1], tuple(nx[2]), hit, x in ('\n', '#') and x, (x if x in self.heads() else isinstance(x, str)) if q == 'MAIN' and nx[0] == 'IDENT' else None, x == EOF), x)
        for x in byclass.values():
            out |= self.sym(node, pend, rel, q, first, ln, x)
        return out

    def sym(self, node, pend, rel, q, first, ln, x):
        """the code and the reference take the next character x"""
        results = set()
        ctxs = self.contexts(q, x, first, ln)
        for ctx in ctxs:
            self.rep.obligations += 1
            r = self.run_code(node, pend, rel, q, first, x, ctx)
            if r is None:
                return results
            self.rep.discharged += 1
            results |= r
        return results

    def contexts(self, q, x, first, ln):
        """what the text of the token may be when it ends here"""
        nq, used, outs = Refm.step(q, x)
        if ('int',) in outs:
            return [('int', True), ('int', False)]
        if ('ident',) in outs:
            tail = ('q',) * 60
            words = [(first,)] if ln == 1 else []
            if ln != 1:
                seconds = ['_', '7', 'a', 'Z', frozenset(['numeric']), frozenset(['alphabetic']), frozenset(['alphabetic', 'numeric'])]
                words = [(first, s) for s in seconds] + [(first, s) + tail for s in seconds]
                for k in self.consts():
                    for p in ('', SIGIL):
                        w = tuple(p + k)
                        if len(w) > 1 and w[0] == first and all(word_char(ch) for ch in w[1:]):
                            words.append(w)
            return [('word', w) for w in words]
        return [('plain',)]

    def consts(self):
        if not hasattr(self, 'kc'):
            out = set(KEYWORDS)
            for e in self.m.edges:
                for a, v in e['other']:
                    for y in walk(a):
                        if is_t(y, 'const') and isinstance(y[1], str):
                            out.add(y[1])
            self.kc = sorted(out)
        return self.kc

    def heads(self):
        if not hasattr(self, 'hd'):
            self.hd = {k[0] for k in self.consts() if k} | {SIGIL, '_'}
        return self.hd

    # ---------------------------------------------------------- one step
    def run_code(self, node, pend, rel, q, first, x, ctx):
        m = self.m
        nq, used, routs = Refm.step(q, x)
        results = set()
        # code: follow edges until the character is consumed (or, if the reference does not consume it, until something is stored)
        todo = [(node, pend, rel, (), 0, ())]
        done = []
        guard = 0
        while todo:
            nd, pd, rl, outs, used_code, path = todo.pop()
            guard += 1
            if guard > 400:
                self.fail('loop', 'the tokenizer does not come to an end before %r' % (x,))
                return None
            if nd == 'ret':
                done.append((nd, pd, rl, outs, used_code))
                continue
            if used_code and (len(path) > 0):
                done.append((nd, pd, rl, outs, used_code))
                continue
            if not used and outs and not used_code:
                done.append((nd, pd, rl, outs, used_code))
                continue
            n = 0
            for e in m_edges(m, nd):
                it = e['items']
                pd2 = list(pd) + [FULL | {EOF}] * max(0, len(it) - len(pd))
                ok = all(pd2[i] & it[i] for i in range(len(it))) and (not it or x in it[0] & pd2[0]) and (not pd or x in pd[0])
                if not ok:
                    continue
                if len(it) > 1 and any(s != FULL | {EOF} and s != FULL for s in it[1:]):
                    self.fail('lookahead', 'the tokenizer examines more than one character ahead, which is not modelled')
                    return None
                t = self.true(e, rl, ctx, q, first, x)
                if t is False:
                    continue
                n += 1
                if e['k'] > 1:
                    self.fail('lookahead', 'the tokenizer takes several characters at once, which is not modelled')
                    return None
                if e['k'] == 1 and x == EOF:
                    self.fail('eof', 'the tokenizer reads on at the end of the text')
                    return None
                rl2 = self.advance(rl, e['k'])
                o2 = tuple((o, e, rl2, used_code or e['k']) for o in e['out'])
                if e['dst'] != 'ret':
                    new = ('phi', e['dst'][1], m.nodes[e['dst'][1]])
                    here = [(mk, d) for b, mk, d in rl if b == e['src'] and mk != 'EOF']
                    rl2 = frozenset(r for r in rl2 if r[0] != new) | frozenset((new, mk, d if mk == 'C' else d + e['k']) for mk, d in here if abs(d + e['k']) <= 2)
                if is_t(e['src'], 'phi'):
                    rl2 = frozenset(r for r in rl2 if r[:2] != (e['src'], 'EOF')) | {(e['src'], 'EOF', x == EOF)}
                left = tuple(frozenset(pd2[i] & it[i]) if i < len(it) else pd2[i] for i in range(len(pd2)))[e['k']:]
                if e['k'] == 0 and not left:
                    left = (frozenset([x]),)
                elif e['k'] == 0:
                    left = (frozenset([x]),) + left[1:]
                left = tuple(s for s in left) if any(s != FULL | {EOF} for s in left) else ()
                todo.append((e['dst'], left, rl2, outs + o2, used_code or e['k'], path + (e,)))
            if not n:
                self.fail('stuck:%s' % q, 'nothing is done %s in the text at %s (or under a condition that is not modelled)' % (self.where(q), show(x)))
                return None
        for nd, pd, rl, outs, uc in done:
            r = self.compare(q, nq, used, routs, nd, pd, rl, outs, uc, first, x, ctx)
            if r is None:
                return None
            results.add(r)
        return results

    def advance(self, rel, k):
        out = set()
        for b, mk, d in rel:
            d2 = d - k if mk == 'C' else d
            if abs(d2) <= 2:
                out.add((b, mk, d2))
        return frozenset(out)

    def where(self, q):
        return {'MAIN': 'between tokens', 'IDENT': 'in an identifier or keyword', 'INT': 'in an integer', 'PATH': 'in a path', 'COMMENT': 'in a comment',
                'GAP': 'after a line of a comment', 'END': 'at the end'}[q]

    # ---------------------------------------------------------- comparison
    def compare(self, q, nq, used, routs, nd, pd, rel, outs, uc, first, x, ctx):
        m = self.m
        at = '%s, at %s' % (self.where(q), show(x))
        if nd == 'ret' and nq != 'END':
            self.fail('early', 'the tokenizer ends %s' % at)
            return None
        if nq == 'END':
            self.states.add('END')
            if nd != 'ret' or outs:
                self.fail('end', 'the tokenizer does not end at the end of the text')
                return None
            return ('ret', (), frozenset(), 'END', None, 0)
        if bool(uc) != bool(used):
            if uc and not used:
                self.fail('consumed:' + q, 'the tokenizer takes %s as part of what ends before it (%s)' % (show(x), at))
                return None
            self.fail('consumed:' + q, 'the tokenizer does not take %s as part of what it belongs to (%s)' % (show(x), at))
            return None
        marks = [(o[1], 0 if o[0] == 'mark' else -1) for o in routs if o[0] in ('mark', 'mark-')]

        def marked(rel):
            for mk, d in marks:
                new = {(b, mk, dd - d) for b, m2, dd in rel if m2 == 'C' and abs(dd - d) <= 2}
                rel = frozenset(r for r in rel if r[1] != mk) | new
            return rel
        rel2 = rel = marked(rel)
        want = [o for o in routs if o[0] not in ('mark', 'mark-')]
        exp = self.expected(want, ctx, first)
        got_err = any(o[0][0] == 'err' for o in outs)
        if (exp == 'err') != got_err:
            self.fail(('missed:' if not got_err else 'spurious:') + q, '%s is %s (%s)' % (self.text(ctx, x), 'not reported' if not got_err else 'reported as an error although it is allowed', at))
            return None
        self.errs |= {o[0][1] for o in outs if o[0][0] == 'err'}
        for o in outs:
            if o[0][0] == 'err':
                self.reported(o[0], o[1], marked(self.advance(o[2], (uc or 0) - (o[3] or 0))), ctx, q, x, uc or 0)
        self.states.add(nq)
        if exp != 'err':
            vals = [(o[0], o[1], marked(self.advance(o[2], (uc or 0) - (o[3] or 0)))) for o in outs]
            if len(vals) != (0 if exp is None else 1):
                self.fail('stored:' + q, '%s items instead of %s are stored for %s (%s)' % (len(vals), 0 if exp is None else 1, self.text(ctx, x), at))
                return None
            if exp is not None:
                o, e, orel = vals[0]
                if not self.item(exp, o, e, orel, ctx, q, x, at):
                    return None
        # the next token starts here
        if nq == 'MAIN':
            cur = ('phi', nd[1], m.nodes[nd[1]])
            here = [(b, d) for b, mk, d in rel2 if mk == 'C' and b == cur]
            rel2 = frozenset((b, 'C', d) for b, d in here) | frozenset((b, 'T', d) for b, d in here)
            first, ln = None, 0
        else:
            if q == 'MAIN':
                first, ln = x, 1
            elif nq == 'IDENT' and used:
                ln = 2
            else:
                ln = 0
            if nq != 'IDENT':
                first = None
        live = frozenset(r for r in rel2 if r[0] is not None or nd is None)
        return (nd, pd if not used else pd, live, nq, first, ln)

    def expected(self, want, ctx, first):
        if not want:
            return None
        w = want[0]
        if w == ('err',):
            return 'err'
        if w[0] == 'ident':
            word = ctx[1]
            s = ''.join(word) if all(isinstance(ch, str) for ch in word) else None
            if s in KEYWORDS:
                return ('tok', KEYWORDS[s])
            body = word[1:] if word[0] == SIGIL else word
            if not body or body[0] == '_' or has(body[0], 'numeric'):
                return 'err'
            return ('identifier', 1 if word[0] == SIGIL else 0)
        if w[0] == 'int':
            return ('integer',) if ctx[1] else 'err'
        return w

    def text(self, ctx, x):
        if ctx[0] == 'word':
            return 'the word "%s"' % ''.join(ch if isinstance(ch, str) else '<%s>' % '+'.join(sorted(ch)) for ch in ctx[1][:12])
        if ctx[0] == 'int':
            return 'an integer that %s' % ('fits' if ctx[1] else 'does not fit')
        return show(x)

    def marksof(self, t, rel, e):
        """marks a byte offset stands at"""
        if t == ('const', 0):
            return {(mk, d) for b, mk, d in rel if b is None and mk != 'EOF'}
        if is_t(t, 'call') and t[1] == 'len' and strip(t[2][0]) == self.m.S:
            return {('LEN', 0)}
        d, c = to_lin(t)
        if len(d) != 1:
            return set()
        (o, n), = d.items()
        if not is_t(o, 'off') or n != 1 or o[1] != self.m.S or c < 0:
            return set()
        b, k = self.m.at(o[2])
        for _ in range(c):
            s = e['chars'].get(b, {}).get(k, FULL)
            if not all(isinstance(y, str) for y in s):
                return set()
            k += 1
        return {(mk, dd + k) for b2, mk, dd in rel if b2 == b and mk != 'EOF'}

    def is_at(self, t, mk, d, rel, e, x):
        ms = self.marksof(t, rel, e)
        if (mk, d) in ms:
            return True
        return ('LEN', 0) in ms and x == EOF and (mk, d) in (('C', 0), ('E', 0))

    def range_of(self, v, names=('start', 'end')):
        if not is_t(v, 'agg'):
            return None
        d = dict(v[3])
        return tuple(d.get(n) for n in names)

    def slice_(self, t, a, b, rel, e, x):
        """is t the text from mark a to mark b?"""
        if not (is_t(t, 'slice') and t[1] == self.m.S and is_t(t[2], 'agg')):
            return False
        d = dict(t[2][3])
        s, n = d.get('start'), d.get('end')
        if s is None or not self.is_at(s, a[0], a[1], rel, e, x):
            return False
        if n is None:
            return t[2][1].endswith('RangeFrom') and x == EOF
        return t[2][1].endswith('::Range') and self.is_at(n, b[0], b[1], rel, e, x)

    def reported(self, o, e, rel, ctx, q, x, uc):
        """an error that has to be reported is"""

    def item(self, exp, o, e, rel, ctx, q, x, at):
        c = self.c
        what = self.text(ctx, x)
        if exp[0] == 'line':
            v = strip(o[2])
            ok = o[0] == 'line' and is_t(v, 'call') and v[1] == 'str::trim' and self.slice_(v[2][0], ('L', 0), ('E', 0), rel, e, x)
            if not ok:
                self.fail('line', 'a line of a comment is kept as %s instead of its trimmed text (%s)' % (c(v)[:200], at))
                return False
            self.lines.add(o[1])
            return True
        if o[0] != 'tok':
            self.fail('stored:' + q, 'something else than a token is stored for %s' % what)
            return False
        self.toks.add(o[1])
        v = strip(o[2])
        f = dict(v[3])
        r = self.range_of(f.get('source_range'))
        end = ('E', 0) if exp[0] == 'comment' else ('C', 0)
        if r is None or None in r or not self.is_at(r[0], 'T', 0, rel, e, x) or not self.is_at(r[1], end[0], end[1], rel, e, x):
            self.fail('range:' + q, 'the token of %s claims the range %s instead of its own text (%s)' % (what, c(f.get('source_range'))[:200], at))
            return False
        var = f.get('variant')
        kind = {'identifier': 'Identifier', 'integer': 'Integer', 'path': 'Path', 'comment': 'Comment'}.get(exp[0]) or exp[1]
        if not is_t(var, 'agg') or var[2] != kind:
            self.fail('kind:' + q, '%s becomes %s instead of %s (%s)' % (what, c(var)[:120], kind, at))
            return False
        p = strip(var[3][0][1]) if var[3] else None
        if exp[0] == 'identifier':
            ok = is_t(p, 'call') and p[1] == 'into:identifier::Identifier' and self.slice_(p[2][0], ('T', exp[1]), ('C', 0), rel, e, x)
        elif exp[0] == 'integer':
            y = p[1] if is_t(p, 'vf') and p[2] == 'Ok' else None
            ok = is_t(y, 'call') and y[1] in ('str::parse', 'FromStr::from_str') and self.slice_(y[2][0], ('T', 0), ('C', 0), rel, e, x)
        elif exp[0] == 'path':
            y = p
            while is_t(y, 'call') and y[1].startswith('into:'):
                y = strip(y[2][0])
            ok = self.slice_(y, ('T', 1), ('C', -1), rel, e, x)
        elif exp[0] == 'comment':
            ok = is_t(base(var[3][0][1]), 'new')
            self.para.add(base(dict(dict(o[2][3])['variant'][3])['0']))
        else:
            ok = p is None
        if not ok:
            self.fail('payload:' + q, 'the token of %s holds %s (%s)' % (what, c(p)[:200], at))
        self.kinds.add(kind)
        return ok

    # ---------------------------------------------------------- conditions other than on the next character
    def true(self, e, rel, ctx, q, first, x):
        """do the other conditions of an edge hold here? False only if certainly not; conditions that are not understood fail the check"""
        # the first character of the token, if the path has examined it
        if first is not None:
            for b, mk, d in rel:
                if mk == 'T' and b in e['chars'] and b != e['src']:
                    s = e['chars'][b].get(-d if d else 0)
                    if s is not None and first not in s:
                        return False
        for b, end in e['ends'].items():
            if b != e['src'] and (b, 'EOF', not end) in rel:
                return False
        for a, v in e['other']:
            r = self.lit(a, v, e, rel, ctx, q, x)
            if r is False:
                return False
            if r is None:
                self.fail('condition', 'a condition of the tokenizer is not modelled: %s' % self.c.lit(a, v)[:300])
        return True

    def word_of(self, t, rel, e, ctx, x):
        """the characters of a stretch of the token, if it is one"""
        if ctx[0] != 'word':
            return None
        for k in (0, 1):
            if self.slice_(t, ('T', k), ('C', 0), rel, e, x):
                return ctx[1][k:]
        return None

    def lit(self, a, v, e, rel, ctx, q, x):
        t = a[1]
        pol = True in v
        if a[0] == 'b' and is_t(t, 'call') and t[1] in ('eq', 'PartialEq::eq', 'str::eq') and len(t[2]) == 2:
            for y, z in ((t[2][0], t[2][1]), (t[2][1], t[2][0])):
                if is_t(z, 'const') and isinstance(z[1], str):
                    w = self.word_of(y, rel, e, ctx, x)
                    if w is not None:
                        return (w == tuple(z[1])) == pol
        if a[0] == 'b' and is_t(t, 'call') and t[1] == 'str::starts_with':
            w = self.word_of(t[2][0], rel, e, ctx, x)
            if w is not None:
                p = t[2][1]
                if is_t(p, 'const'):
                    pat = (chr(p[1]),) if isinstance(p[1], int) else tuple(p[1])
                    return (w[:len(pat)] == pat) == pol
                if is_t(p, 'fnitem') and p[1].split('::')[-1].startswith('is_'):
                    if not w:
                        return (not pol)
                    r = has(w[0], p[1].split('::')[-1][3:])
                    return None if r is None else r == pol
        # the first character of a word, taken from an iterator of its own
        def first(y):
            if is_t(y, 'elem') and y[2] == ('k', 0) and is_t(y[1], 'call') and y[1][1] == 'str::chars':
                return self.word_of(y[1][2][0], rel, e, ctx, x)
            return None
        if a[0] == 'is' and is_t(t, 'next') and t[2] == ('k', 0) and is_t(t[1], 'call') and t[1][1] == 'str::chars':
            w = self.word_of(t[1][2][0], rel, e, ctx, x)
            if w is not None:
                return ('Some' if w else 'None') in v
        if first(t) == () or is_t(t, 'call') and len(t[2]) == 1 and first(t[2][0]) == ():
            return False  # there is none
        if a[0] == 'n' and first(t):
            w = first(t)[0]
            return self.inside(v, ord(w), ord(w)) if isinstance(w, str) else True if self.inside(v, 128, 0x10ffff) else False if all(h < 128 for _, h in v) else None
        if a[0] == 'b' and is_t(t, 'call') and t[1].split('::')[-1].startswith('is_') and len(t[2]) == 1 and first(t[2][0]):
            r = has(first(t[2][0])[0], t[1].split('::')[-1][3:])
            return None if r is None else r == pol
        if a[0] == 'n' and is_t(t, 'call') and t[1] == 'len':
            w = self.word_of(t[2][0], rel, e, ctx, x)
            if w is not None:
                return self.inside(v, 0, 0) if not w else (True if all(lo <= 1 and hi >= INF for lo, hi in v) else False if all(hi <= 0 for lo, hi in v) else None)
        if a[0] == 'n' and is_t(t, 'lin') and len(t[1]) == 2 and sorted(n for _, n in t[1]) == [-1, 1]:
            hi_t = next(y for y, n in t[1] if n == 1)
            lo_t = next(y for y, n in t[1] if n == -1)
            m1 = self.marksof(hi_t, rel, e)
            # lo_t minus the constant: off(lo) - c
            if t[2] < 0:
                m2 = self.marksof(mk_lin({lo_t: 1}, -t[2]), rel, e)
                flip = False
            else:
                m2 = self.marksof(lo_t, rel, e)
                m1 = self.marksof(mk_lin({hi_t: 1}, t[2]), rel, e) if t[2] else m1
            shift = tuple(v)
            if ('T', 0) in m1 and (('C', 0) in m2 or ('LEN', 0) in m2 and x == EOF):
                m1, m2, shift = m2, m1, tuple(sorted((-h, -l) for l, h in shift))
            dist = self.distance(m1, m2, ctx, q, x)
            if dist is not None:
                # dist: characters between, exact or at least; bytes differ from 0 exactly if characters do
                lo, hi = dist
                if ctx[0] == 'word' and (('C', 0) in m1 or ('LEN', 0) in m1 and x == EOF) and ('T', 0) in m2 and all(isinstance(y, str) for y in ctx[1]):
                    return any(l <= len(ctx[1]) <= h for l, h in shift)
                blo, bhi = (lo, 4 * hi if hi < INF else INF) if lo >= 0 else (lo * 4 if lo > -INF else -INF, hi)
                if lo == hi == 0:
                    blo = bhi = 0
                if all(l <= blo and h >= bhi for l, h in shift[:1]) and len(shift) == 1:
                    return True
                if all(h < blo or l > bhi for l, h in shift):
                    return False
                if any(l <= blo and bhi <= h for l, h in shift):
                    return True
                return None
        if a[0] == 'is' and is_t(t, 'call') and t[1] in ('str::parse', 'FromStr::from_str') and ctx[0] == 'int':
            if self.slice_(t[2][0], ('T', 0), ('C', 0), rel, e, x):
                return ('Ok' in v) if ctx[1] else ('Err' in v)
        if a[0] == 'is' and contains(t, lambda y: is_t(y, 'call') and y[1].endswith('next_boundary')):
            return 'Ok' in v or 'Some' in v  # the documentation of the cursor excludes the others for a whole text
        if a[0] == 'n' and is_t(t, 'call') and t[1] == 'len' and is_t(base(t[2][0]), 'new'):
            return True  # emptiness of a collection: decided below, for the end and for the paragraphs
        return None

    def inside(self, v, lo, hi):
        return any(a <= lo and hi <= b for a, b in v)

    def distance(self, m1, m2, ctx, q, x):
        """characters from the second mark to the first: (least, most)"""
        for a, d in m1:
            for b, f in m2:
                if a == b:
                    return d - f, d - f
        size = None
        if ctx[0] == 'word':
            size = (len(ctx[1]), len(ctx[1]))
        elif q in ('PATH', 'INT', 'COMMENT', 'GAP'):
            size = (1, INF)
        for a, d in m1:
            if a == 'LEN' and x == EOF:
                a = 'C'
            for b, f in m2:
                if b == 'LEN' and x == EOF:
                    b = 'C'
                if a == b:
                    return d - f, d - f
                if size and (a, b) == ('C', 'T'):
                    # a taken character counts
                    return size[0] + d - f, size[1] + d - f if size[1] < INF else INF
                if size and (a, b) == ('T', 'C'):
                    return (-size[1] + d - f if size[1] < INF else -INF), -size[0] + d - f
        return None


def m_edges(m, node):
    return m.by.get(node, ())


def show(x):
    if x == EOF:
        return 'the end of the text'
    if isinstance(x, str):
        return repr(x)
    return 'a character that is not ASCII%s' % (' (%s)' % ', '.join(sorted(x)) if x else '')


def machine(prog, rep):
    cand = [n for n, f in prog.raw.items() if re.search(r'Result<std::vec::Vec<token::Token>, std::vec::Vec<error::Error>>$', str(f['locals'][0])) and 'tests' not in n and
            any(re.match(r"^&('\w+ )?str$", str(x)) for x in f['locals'][1:f['nargs'] + 1])]
    if len(cand) > 1:
        cand = [n for n in cand if all(x in prog.reach([n]) for x in cand)]
    if not rep.ob(len(cand) == 1, 'anchor:tokenize', 'there is no single function that turns text into tokens'):
        return None
    m = Machine(prog, rep, cand[0])
    if not m.ok:
        return None
    for k, msg in m.bad.items():
        rep.fail('shape:' + k, 'in the tokenizer, ' + msg)
    if m.bad or not rep.ob(len(m.nodes) >= 1, 'anchor:loops', 'no loop of the tokenizer reads the text character by character'):
        return None
    return m


def check(prog, rep):
    m = machine(prog, rep)
    if m is None:
        return
    r = Run(m, rep)
    r.go()
    if r.failed:
        return
    rep.ob(r.states >= {'MAIN', 'IDENT', 'INT', 'PATH', 'COMMENT', 'GAP', 'END'}, 'anchor:rules', 'not every lexical rule is reached: %s' % sorted(r.states))
    rep.ob(r.kinds >= set(KEYWORDS.values()) | set(SYMBOLS.values()) | {'Identifier', 'Integer', 'Path', 'Comment'}, 'anchor:kinds', 'not every kind of token is ever made')
    for e in m.an.events:
        if e['kind'] == 'call' and e['f'] in ('str::parse', 'FromStr::from_str') and contains(e['args'], lambda x: x == m.S):
            rep.ob(bool(e['gen']) and e['gen'][0] in ('usize', 'u64'), 'integer:width', 'integers are read as %s instead of 64 bits' % (e['gen'][:1],), e['site'])
    result(m, r, rep)
    paragraphs(m, r, rep)


READ = ('len', 'is_empty', 'iter', 'get', 'last', 'first', 'clone', 'into_iter', 'deref')


def result(m, r, rep):
    """the tokens are returned exactly if nothing was reported"""
    c = m.c
    if not (rep.ob(len(r.toks) == 1 and is_t(next(iter(r.toks)), 'new'), 'anchor:tokens', 'the tokens are not collected in one place') and
            rep.ob(len(r.errs) == 1 and is_t(next(iter(r.errs)), 'new'), 'anchor:errors', 'the errors are not collected in one place')):
        return
    toks, errs = next(iter(r.toks)), next(iter(r.errs))
    for what, b, adds in (('tokens', toks, ('push', 'push_back')), ('errors', errs, ('push', 'push_back', 'extend', 'append'))):
        made = {e['loops'] for e in m.an.events if e['kind'] == 'new' and e['obj'] == b}
        rep.ob(made == {()}, 'scope:' + what, 'the collection of %s is not created once per file' % what)
        for e in m.an.events:
            if e['kind'] == 'call' and e.get('rargs') and base(e['rargs'][0]) == b and not e.get('local'):
                op = e['f'].split('::')[-1]
                rep.ob(op in READ or op in adds, 'changed:' + what, 'the collection of %s is changed by %s' % (what, e['f']), e['site'])
    for st, rv in m.rets:
        v = base(rv[3][0][1]) if is_t(rv, 'agg') and rv[3] else None
        for cj in st.guard:
            empty = None
            for a, vs in cj:
                if a[0] == 'n' and is_t(a[1], 'call') and a[1][1] == 'len' and base(a[1][2][0]) == errs:
                    empty = True if all(hi <= 0 for lo, hi in vs) else False if all(lo >= 1 for lo, hi in vs) else empty
            rep.ob(empty is not None and is_t(rv, 'agg') and (rv[2], v) == (('Ok', toks) if empty else ('Err', errs)), 'result',
                   'the tokenizer returns %s %s' % (c(rv)[:80], 'although nothing was reported' if empty else 'although something was reported' if empty is False else 'whether or not something was reported'))


def paragraphs(m, r, rep):
    """the lines of a comment between empty ones make one paragraph, joined by spaces"""
    c = m.c
    ev = m.an.events
    if not (rep.ob(len(r.lines) == 1 and is_t(next(iter(r.lines)), 'new'), 'anchor:lines', 'the lines of a comment are not collected in one place') and
            rep.ob(len(r.para) == 1, 'anchor:paragraphs', 'the paragraphs of a comment are not collected in one place')):
        return
    lines, para = next(iter(r.lines)), next(iter(r.para))
    main = [L for L in m.nodes if not m.an.nest[L]]
    for what, b in (('lines', lines), ('paragraphs', para)):
        made = {e['loops'] for e in ev if e['kind'] == 'new' and e['obj'] == b}
        rep.ob(made == {tuple(main)}, 'scope:' + what, 'the %s of a comment are not collected anew for every comment' % what)
        for e in ev:
            if e['kind'] == 'call' and e.get('rargs') and base(e['rargs'][0]) == b and not e.get('local'):
                op = e['f'].split('::')[-1]
                rep.ob(op in READ or op == 'push', 'changed:' + what, 'the %s of a comment are changed by %s' % (what, e['f']), e['site'])
    pushes = [e for e in ev if e['kind'] == 'call' and e['f'] == 'Vec::push' and base(e['rargs'][0]) == para]
    ps = {base(e['rargs'][1]) for e in pushes}
    if not rep.ob(len(ps) == 1 and is_t(next(iter(ps)), 'new'), 'anchor:paragraph', 'the paragraphs of a comment are not built in one place: %s' % [c(x)[:100] for x in ps]):
        return
    P = next(iter(ps))
    rep.ob({e['loops'] for e in ev if e['kind'] == 'new' and e['obj'] == P} == {tuple(main)}, 'scope:paragraph', 'the first paragraph of a comment does not start empty')
    ops = []
    for i, e in enumerate(ev):
        if e in pushes:
            ops.append(('push', e))
            v = e['rargs'][1]
            rep.ob(not (is_t(v, 'mut') and is_t(v[2], 'w')) and not any(k == 'clear' and x['loops'] == e['loops'] and is_t(v, 'mut') and is_t(v[2], 'c') and ('c', x['fid'], x['bb']) == v[2][:3]
                   for k, x in ops), 'paragraph:order', 'a paragraph is kept after it was changed', e['site'])
        elif e['kind'] == 'write' and e['dst'] == P:
            pc = e['pieces']
            ops.append(('sp' if pc == (('s', ' '),) else 'line' if len(pc) == 1 and is_t(pc[0][2], 'elem') and base(pc[0][2][1]) == lines else 'other', e))
        elif e['kind'] == 'call' and not e.get('local') and e.get('rargs') and base(e['rargs'][0]) == P:
            op = e['f'].split('::')[-1]
            if op in ('clear', 'take'):
                ops.append(('clear', e))
            elif op not in READ:
                ops.append(('other', e))
    inner = {e['loops'] for k, e in ops if len(e['loops']) > 1}
    if not rep.ob(len(inner) == 1 and next(iter(inner))[:1] == tuple(main), 'anchor:fold', 'the lines of a comment are not put together in one loop'):
        return
    inner = next(iter(inner))
    COMB = [(a, b) for a in (0, 1) for b in (0, 1)]  # (line empty, paragraph empty)

    def when(e):
        """(all combinations in which it happens, elements the loop runs over)"""
        out = set()
        for cj in e['guard']:
            co = set(COMB)
            if any(not (m.char_of(a) or contains(strip(a[1]), lambda x: x == m.CH or x == m.S) or a[0] == 'is' and is_t(a[1], 'next') or a[0] == 'n' and is_t(a[1], 'call') and
                        a[1][1] == 'len' and (base(a[1][2][0]) in (P, lines) or is_t(a[1][2][0], 'elem') and base(a[1][2][0][1]) == lines)) for a, v in cj):
                out.add((9, 9))  # depends on something else
                continue
            for a, v in cj:
                if a[0] == 'n' and is_t(a[1], 'call') and a[1][1] == 'len':
                    x = a[1][2][0]
                    z = {int(hi <= 0) for lo, hi in v if hi <= 0 or lo >= 1} if all(hi <= 0 or lo >= 1 for lo, hi in v) else {0, 1}
                    if base(x) == P:
                        co &= {p for p in COMB if p[1] in z}
                    elif is_t(x, 'elem') and base(x[1]) == lines:
                        co &= {p for p in COMB if p[0] in z}
            out |= co
        return out
    WANT = {'push': {(1, 0)}, 'clear': {(1, 0)}, 'sp': {(0, 0)}, 'line': {(0, 0), (0, 1)}, 'other': set()}
    SAY = {'push': 'a paragraph is ended', 'clear': 'a new paragraph is begun', 'sp': 'a space is put between lines', 'line': 'a line is added to its paragraph', 'other': 'the paragraph is changed otherwise'}
    for k, want in WANT.items():
        got = set()
        for k2, e in ops:
            if k2 == k and e['loops'] == inner:
                got |= when(e)
        rep.ob(got == want, 'paragraph:' + k, '%s, by the emptiness of the line and of the paragraph so far, if %s instead of %s' % (SAY[k], sorted(got), sorted(want)))
    order = [k for k, e in ops if e['loops'] == inner]
    rep.ob('sp' not in order or 'line' not in order or max(i for i, k in enumerate(order) if k == 'sp') < len(order) and order.index('sp') < order.index('line'), 'paragraph:space',
           'the space between lines comes after the line')
    got = set()
    for k, e in ops:
        if e['loops'] == inner[:1]:
            rep.ob(k in ('push', 'clear'), 'paragraph:after', 'the paragraph is changed after the last line', e['site'])
            if k == 'push':
                got |= {p[1] for p in when(e)}
    rep.ob(got == {0}, 'paragraph:last', 'the last paragraph of a comment is %s' % ('dropped' if 0 not in got else 'kept even if it is empty'))
    over = [e for e in ev if e['kind'] == 'consume' and base(e.get('src_v')) == lines]
    rep.ob(not any(is_t(e['src'], 'of') for e in over), 'paragraph:lines', 'only some lines of a comment are used')
    nx = {strip(a[1][1]) for e in ev if e['loops'][:2] == inner for cj in e['guard'] for a, v in cj if a[0] == 'is' and is_t(a[1], 'next') and a[1][2] == inner[1]}
    rep.ob(nx == {lines}, 'paragraph:lines', 'the paragraphs are not made from all lines in order: %s' % [c(x)[:100] for x in nx])
