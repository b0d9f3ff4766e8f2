"""Token automata: the language a parser function accepts, extracted from its guarded position updates.

Nodes are the function entry, the loop heads that move the position, and 'ret'.  An edge is one way from node to node: the sets of token
kinds it consumes (one per position, from the tests it made), calls of sub-parsers as nonterminals, and what it has seen of the tokens after that (lookahead)."""
import itertools
from spec import *

EOF = 'EOF'


class Parser:
    """the parser's functions by what they return"""

    def __init__(self, prog, rep, helpers=None, watch=None, exact=False):
        self.help = self.HELP if helpers is None else helpers
        self.watch = watch
        self.exact = exact      # keep every position apart, also on failing paths
        self.ok = True
        self.prog, self.rep = prog, rep
        tok = [n for n in prog.enums if n == 'token::Variant']
        self.tokens = frozenset(prog.enums[tok[0]]) if tok else frozenset()
        if not rep.ob(bool(tok), 'anchor:tokens', 'there is no type of token kinds'):
            self.ok = False
        want = {'SCHEMA': ('schema::Schema',), 'IMPORT': ('std::option::Option<(identifier::Identifier, schema::Import)>',),
                'FIELD': ('std::option::Option<schema::Field>',), 'TYPE': ('std::option::Option<schema::Type>',)}
        self.fns, self.at = {}, {}
        for nt, tys in want.items():
            cand = [n for n, f in prog.raw.items() if f['locals'][0] in tys and f['nargs'] >= 3 and 'tests' not in n and
                    {'&[token::Token]', '&mut usize'} <= set(str(x) for x in f['locals'][1:f['nargs'] + 1])]
            if len(cand) > 1:
                # helpers are inlined: the one that reaches the others
                top = [n for n in cand if all(m in prog.reach([n]) for m in cand)]
                out = [n for n in cand if any(n in prog.calls.get(m, ()) for m in prog.raw if m not in cand)]
                cand = [n for n in top if n in out] or top or cand
            if not rep.ob(len(cand) == 1, 'anchor:' + nt, 'there is no single parsing function for %s' % nt.lower()):
                self.ok = False
                continue
            n = cand[0]
            self.fns[nt] = n
            args = [str(x) for x in prog.raw[n]['locals'][1:prog.raw[n]['nargs'] + 1]]
            self.at[nt] = dict(tokens=args.index('&[token::Token]'), pos=args.index('&mut usize'),
                               errors=next((i for i, x in enumerate(args) if x.startswith('&mut') and 'Vec<error::Error>' in x), -1),
                               path=next((i for i, x in enumerate(args) if x == '&std::path::Path'), -1),
                               text=next((i for i, x in enumerate(args) if x == '&str'), -1))
        self.nt = {f: k for k, f in self.fns.items()}
        self.memo = {}

    FIRST = {'TYPE': frozenset('LeftSquare Bool Bytes F64 S64 String U64 Unit Identifier'.split()),
             'FIELD': frozenset('Comment Asymmetric Optional Identifier'.split()),
             'IMPORT': frozenset(['Import'])}
    FOLLOW = {'TYPE': frozenset(['Equals', 'RightSquare']),
              'FIELD': frozenset('Comment Asymmetric Optional Identifier Deleted RightCurly'.split()),
              'IMPORT': frozenset('Import Comment Struct Choice'.split()) | {EOF}}
    HELP = ('parser::span_tokens', 'parser::token_source_range', 'parser::unexpected_token')

    def auto(self, nt):
        if nt not in self.memo:
            self.memo[nt] = Auto(self, nt)
        return self.memo[nt]


def is_throw(t):
    return contains(strip(t), lambda x: is_t(x, 'call') and x[1] in ('error::throw', 'parser::unexpected_token'))


def is_push(e):
    return e['kind'] == 'call' and e['f'] in ('Vec::push', 'Vec::extend', 'Extend::extend', 'Vec::append', 'Vec::extend_from_slice') and any(is_throw(a) for a in e['args'][1:])


STORE = ('push', 'push_back', 'insert')


class Auto:
    def __init__(self, par, nt):
        self.par, self.nt, self.c = par, nt, Canon()
        rep, prog = par.rep, par.prog
        self.fn = fn = par.fns[nt]
        self.at = par.at[nt]
        self.root = ('ext', self.at['pos'])
        self.TOK = ('param', self.at['tokens'])
        self.start = ('param', self.at['pos'])
        self.problems = []

        def monitor(e, st):
            if par.watch:
                par.watch(self, e, st)
            if is_push(e):
                self.an.write(st, (('mon', 'err'), ()), ('const', True))
            elif e['kind'] == 'call' and e.get('rargs') and e['args'] and not e.get('local') and e['loops'] and e['f'].split('::')[-1] in STORE:
                self.an.write(st, (('mon', 'stored', e['loops'][-1], base(e['rargs'][0])), ()), ('const', True))

        def latched(an, st, L):
            mine = [k for k in st.store if k[:2] == ('mon', 'stored') and k[2] == L]
            self.stored[id(st)] = (L, {k[3] for k in mine if st.store[k] == ('const', True)}, st)   # holding st: its id is not given to another state
            for k in mine:
                del st.store[k]
        self.stored = {}

        def branch(an, st, l):
            a, v = l
            if a[0] == 'is' and a[1][0] in ('call', 'callm') and a[1][1] in par.nt and v == frozenset(['None']):
                an.write(st, (('mon', 'err'), ()), ('const', True))
        helpers = {h for h in par.help if prog.has(h)}
        self.an = Analyzer(prog, opaque=opaque(set(par.fns.values()) | helpers), errty='-', monitors=monitor, branch_hook=branch, latch_hook=latched)
        self.an.exact = {self.root} if par.exact else ()
        try:
            self.rets = self.an.analyze(fn, init=lambda st: st.store.__setitem__(('mon', 'err'), ('const', False)))
        except (Fail, RecursionError) as e:
            rep.fail('analysis:' + nt, 'the analysis of %s cannot follow the code: %r' % (fn, e))
            self.rets, self.an.entries, self.an.latches = [], {}, {}
        rep.used(self.an)
        self.edges = []
        nodes = {('phi', L, self.root) for L in self.an.entries if self.root in self.an.mods.get(L, {})}
        for L, sts in self.an.entries.items():
            for st in sts:
                if ('phi', L, self.root) in nodes:
                    self.add(st, ('phi', L, self.root), None)
        for L, sts in self.an.latches.items():
            for st in sts:
                if ('phi', L, self.root) in nodes:
                    self.add(st, ('phi', L, self.root), None)
        for st, rv in self.rets:
            self.add(st, 'ret', rv)

    # ------------------------------------------------ decoding
    def pos(self, t):
        """(base, offset) of a position"""
        if is_t(t, 'lin') and len(t[1]) == 1 and t[1][0][1] == 1:
            return t[1][0][0], t[2]
        return t, 0

    def decode(self, cj):
        toks, lens, nts, other = {}, {}, {}, []
        for a, v in cj:
            t = a[1]
            if a[0] == 'is' and is_t(t, 'f') and t[2] == 'variant' and is_t(t[1], 'idx') and strip(t[1][1]) == self.TOK:
                b, o = self.pos(t[1][2])
                d = toks.setdefault(b, {})
                d[o] = d.get(o, self.par.tokens) & v
                continue
            if a[0] == 'n' and is_t(t, 'lin'):
                co = dict(t[1])
                ln = [x for x in co if is_t(x, 'call') and x[1] == 'len' and strip(x[2][0]) == self.TOK]
                rest = [x for x in co if x not in ln]
                if len(ln) == 1 and co[ln[0]] == 1 and len(rest) <= 1 and all(co[x] == -1 for x in rest):
                    if not rest:
                        if all(lo <= 3 for lo, hi in v) and any(hi >= INF for lo, hi in v):
                            continue
                    else:
                        lens.setdefault(rest[0], []).append(tuple((lo - t[2] if lo > -INF else 0, hi - t[2] if hi < INF else INF) for lo, hi in v))
                        continue
            if a[0] == 'n' and is_t(t, 'call') and t[1] == 'len' and strip(t[2][0]) == self.TOK and all(lo <= 3 for lo, hi in v) and any(hi >= INF for lo, hi in v):
                continue
            if a[0] == 'is' and t[0] in ('call', 'callm') and t[1] in self.par.nt:
                nts[t[3] if len(t) > 3 else None] = (t, v)
                continue
            other.append((a, v))
        return toks, lens, nts, other

    def add(self, st, dst, rv):
        err = st.store.get(('mon', 'err')) != ('const', False)
        p = st.store.get(self.root)
        if p is None:
            self.problems.append(('position', 'the position in the tokens is lost'))
            return
        for cj in st.guard:
            toks, lens, nts, other = self.decode(cj)
            # the chain of segments from the source node to here
            segs = []
            b, o = self.pos(p)
            bad = None
            while True:
                segs.append((b, o))
                if b == self.start or is_t(b, 'phi') and b[2] == self.root:
                    break
                if is_t(b, 'mut') and is_t(b[2], 'c'):
                    hit = [x for s, x in nts.items() if s is not None and tuple(b[2][1:]) == tuple(s)]
                    inner = self.pos(b[1])
                    if not hit or 'Some' not in hit[0][1]:
                        if not err:
                            bad = 'goes on after a sub-parser without knowing that it succeeded'
                        if not hit:
                            break
                    segs[-1] = (b, o, self.par.nt[hit[0][0][1]] if hit else None)
                    call = hit[0][0]
                    cat = self.par.at[self.par.nt[call[1]]]
                    if self.pos(call[2][cat['pos']]) != inner:
                        bad = 'calls a sub-parser at another position'
                    for k in ('tokens',):
                        if strip(call[2][cat[k]]) != self.TOK:
                            bad = 'calls a sub-parser on other tokens'
                    b, o = inner
                    continue
                bad = 'moves to a position that is not known relative to the last one: %s' % self.c(p)[:120]
                break
            if bad:
                if not err:
                    self.problems.append(('moves', 'the parser of %s %s' % (self.nt.lower(), bad)))
                continue
            src = segs[-1][0]
            segs.reverse()
            if err:
                self.edges.append(dict(src=src, dst=dst, err=True, cj=cj, rv=rv, other=other, st=st))
                continue
            # expand the lengths
            options = []
            for s in segs:
                ivs = [(0, INF)]
                for more in lens.get(s[0], ()):
                    ivs = [(max(a, x), min(b2, y)) for a, b2 in ivs for x, y in more if max(a, x) <= min(b2, y)]
                opts = []
                for lo, hi in ivs:
                    if hi >= INF:
                        opts.append((max(lo, 0), None))
                    else:
                        opts.extend((n, n) for n in range(max(lo, 0), hi + 1))
                options.append(opts)
            for combo in itertools.product(*options):
                items, left, okay = [], [], True
                for i, (s, (lo, hi)) in enumerate(zip(segs, combo)):
                    k = s[1]
                    d = toks.get(s[0], {})
                    m = max([lo, k] + [x + 1 for x in d] + ([hi + 1] if hi is not None else []))

                    def at(x):
                        r = self.par.tokens | {EOF}
                        if x in d:
                            r = d[x]
                        if x < lo:
                            r = r - {EOF}
                        if hi is not None and x >= hi:
                            r = r & {EOF}
                        return frozenset(r)
                    sets = [at(x) for x in range(m)]
                    if any(not x for x in sets):
                        okay = False
                        break
                    if k < 0:
                        self.problems.append(('backwards', 'the parser of %s moves backwards' % self.nt.lower()))
                    items += sets[:k]
                    rest = sets[k:]
                    if i + 1 < len(segs):
                        nt = segs[i + 1][2]
                        first = self.par.FIRST[nt]
                        if rest and not (first & rest[0]):
                            okay = False
                            break
                        if rest and not first <= rest[0]:
                            self.problems.append(('lookahead', 'the parser of %s only handles some %ss' % (self.nt.lower(), nt.lower())))
                        if any(x != self.par.tokens | {EOF} and x != self.par.tokens for x in rest[1:]):
                            self.problems.append(('lookahead', 'the parser of %s looks into a %s before parsing it' % (self.nt.lower(), nt.lower())))
                        items.append(nt)
                    else:
                        left = rest
                if okay:
                    self.edges.append(dict(src=src, dst=dst, err=False, items=tuple(items), left=tuple(left), cj=cj, rv=rv, other=other, segs=segs, st=st, toks=toks))

    # ------------------------------------------------ conditions beyond the tokens
    def conditions(self):
        """the non-token outcomes on accepting edges: {atom: [values]}"""
        out = {}
        for e in self.edges:
            if e['err']:
                continue
            for a, v in e['other']:
                out.setdefault(a, set()).add(v)
        return out

    def expand(self, node, pend, use):
        """configurations at the start of the edges out of node, given what is known of the next tokens"""
        out = set()
        ALL = self.par.tokens | {EOF}
        if node == 'ret':
            if self.nt == 'SCHEMA':
                return {((), 'end', tuple(pend))}
            f = self.par.FOLLOW[self.nt] | {EOF}
            p = list(pend) + [ALL, ALL]
            a, b = p[0] & f, p[1]
            return {((frozenset(a), frozenset(b)), 'end', ())} if a and b else set()
        for e in use:
            if e['src'] != node:
                continue
            seq, left, ok = list(e['items']), list(e['left']), True
            for i, cs in enumerate(pend):
                if i < len(seq):
                    if isinstance(seq[i], str):
                        first = self.par.FIRST[seq[i]]
                        if not first & cs:
                            ok = False
                        elif not first <= cs or any(x < self.par.tokens for x in pend[i + 1:]):
                            self.problems.append(('lookahead', 'the parser of %s looks into a %s before parsing it' % (self.nt.lower(), seq[i].lower())))
                        break
                    seq[i] = frozenset(seq[i] & cs)
                    ok = ok and bool(seq[i])
                else:
                    j = i - len(seq)
                    while len(left) <= j:
                        left.append(ALL)
                    left[j] = frozenset(left[j] & cs)
                    ok = ok and bool(left[j])
            if ok:
                while left and left[-1] == ALL:
                    left.pop()
                out.add((tuple(seq), e['dst'], tuple(left)))
        return out

    def close(self, confs, use):
        """until every configuration consumes something or ends"""
        done, todo = set(), list(confs)
        seen = set(todo)
        while todo:
            c = todo.pop()
            if c[0] or c[1] == 'end':
                done.add(c)
                continue
            for d in self.expand(c[1], c[2], use):
                if d not in seen:
                    seen.add(d)
                    todo.append(d)
        return frozenset(done)

    def step(self, confs, sym, use):
        out = set()
        for items, dst, left in confs:
            if not items:
                continue
            x = items[0]
            if x == sym or not isinstance(x, str) and sym in x:
                out.add((items[1:], dst, left))
        return self.close(out, use)

    def accepting(self, confs):
        return any(not items and dst == 'end' and all(EOF in x for x in left) for items, dst, left in confs)

    def compare(self, ref, use, key):
        """language equality with a reference automaton; reports a shortest difference"""
        rep = self.par.rep
        nts = sorted({x for e in use if not e['err'] for x in e['items'] if isinstance(x, str)} | ref.nts)
        alphabet = sorted(self.par.tokens) + [EOF] + nts
        a0 = self.close({((), self.start, ())}, use)
        b0 = ref.start()
        seen = {(a0, b0, False)}
        queue = [(a0, b0, (), False)]
        n = 0
        while queue:
            nxt = []
            for a, b, w, ended in queue:
                n += 1
                x, y = self.accepting(a), ref.accepting(b)
                if x != y:
                    word = ' '.join(s for s in w if s != EOF) + (' …' if EOF not in w and self.nt != 'SCHEMA' else '')
                    rep.ob(False, '%s:%s' % (key, 'accepts' if x else 'rejects'), 'the parser of %s %s the token sequence: %s' % (
                        self.nt.lower(), 'accepts' if x else 'rejects', word or '(nothing)'))
                    return False
                for s in alphabet:
                    if ended and s != EOF:
                        continue
                    a2, b2 = self.step(a, s, use), ref.step(b, s)
                    if not a2 and not b2:
                        continue
                    k = (a2, b2, s == EOF)
                    if k not in seen:
                        seen.add(k)
                        nxt.append((a2, b2, w + (s,), s == EOF))
            queue = nxt
            if len(seen) > 200000:
                rep.fail(key + ':size', 'the extracted automaton of %s is too large to compare' % self.nt.lower())
                return False
        rep.obligations += n
        rep.discharged += n
        return True


class Ref:
    """Thompson automaton of a regular expression: ('sym', set), ('nt', name), ('seq', ...), ('alt', ...), ('star', x), ('opt', x)"""

    def __init__(self, rx):
        self.eps, self.tr, self.nts, self.n = {}, {}, set(), 0
        self.s = self.new()
        self.f = self.build(rx, self.s)

    def new(self):
        self.n += 1
        return self.n

    def build(self, rx, s):
        k = rx[0]
        if k == 'sym':
            f = self.new()
            for x in rx[1]:
                self.tr.setdefault((s, x), set()).add(f)
            return f
        if k == 'nt':
            self.nts.add(rx[1])
            f = self.new()
            self.tr.setdefault((s, rx[1]), set()).add(f)
            return f
        if k == 'seq':
            for x in rx[1:]:
                s = self.build(x, s)
            return s
        if k == 'alt':
            f = self.new()
            for x in rx[1:]:
                i = self.new()
                self.eps.setdefault(s, set()).add(i)
                self.eps.setdefault(self.build(x, i), set()).add(f)
            return f
        if k == 'opt':
            f = self.new()
            self.eps.setdefault(s, set()).add(f)
            i = self.new()
            self.eps.setdefault(s, set()).add(i)
            self.eps.setdefault(self.build(rx[1], i), set()).add(f)
            return f
        if k == 'star':
            f = self.new()
            self.eps.setdefault(s, set()).add(f)
            self.eps.setdefault(self.build(rx[1], f), set()).add(f)
            return f
        raise ValueError(k)

    def closure(self, xs):
        todo, seen = list(xs), set(xs)
        while todo:
            for y in self.eps.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return frozenset(seen)

    def start(self):
        return self.closure({self.s})

    def step(self, b, sym):
        return self.closure({y for x in b for y in self.tr.get((x, sym), ())})

    def accepting(self, b):
        return self.f in b


def t(*names):
    return ('sym', frozenset(names))


TYPE = ('alt', t('Bool', 'Bytes', 'F64', 'S64', 'String', 'U64', 'Unit'), ('seq', t('LeftSquare'), ('nt', 'TYPE'), t('RightSquare')),
        ('seq', t('Identifier'), ('opt', ('seq', t('Dot'), t('Identifier')))))
FIELD = ('seq', ('opt', t('Comment')), ('opt', t('Asymmetric', 'Optional')), t('Identifier'), ('opt', ('seq', t('Colon'), ('nt', 'TYPE'))), t('Equals'), t('Integer'))
IMPORT = ('seq', t('Import'), t('Path'), ('opt', ('seq', t('As'), t('Identifier'))))
DECL = ('seq', ('opt', t('Comment')), t('Struct', 'Choice'), t('Identifier'), t('LeftCurly'), ('star', ('nt', 'FIELD')),
        ('opt', ('seq', t('Deleted'), ('star', t('Integer')))), t('RightCurly'))
SCHEMA = ('seq', ('opt', t('Comment')), ('star', ('nt', 'IMPORT')), ('star', DECL))
GRAMMAR = dict(TYPE=TYPE, FIELD=FIELD, IMPORT=IMPORT, SCHEMA=SCHEMA)


def reference(par, nt):
    if nt == 'SCHEMA':
        return Ref(SCHEMA)
    f = par.FOLLOW[nt] - {EOF}
    return Ref(('seq', GRAMMAR[nt], ('alt', ('seq', t(EOF), t(EOF)), ('seq', ('sym', f), ('sym', par.tokens | {EOF})))))
