"""Parsing ends, inside the token list, whatever the tokens are."""
from grammar import *

EXPLANATION = ('Inductive interval analysis of the parser\'s positions. Assumed at the entry of a parsing function and after each call of one, and shown at each '
               'call, return, loop entry and loop back edge: the position is at most the number of tokens. Under that, every index into the tokens must be '
               'implied to be in bounds by the tests on its path, every subtraction not to go below zero, no reachable path may panic, and every loop and recursion must '
               'advance a bounded position in each turn (sub-parsers advance by the least amount their returns show for that outcome and first token). '
               'Trusted: additions do not overflow (positions are bounded by the length of a list in memory); the depth of recursion is not bounded.')
FLOORS = {'obligations': 300, 'functions': 6}
ORDER = ('SCHEMA', 'IMPORT', 'FIELD', 'TYPE')


def linear(t):
    """coefficients and constant of a term"""
    if is_t(t, 'lin'):
        co, k = {}, t[2]
        for x, n in t[1]:
            c2, k2 = linear(x)
            k += n * k2
            for y, m in c2.items():
                co[y] = co.get(y, 0) + n * m
        return {x: n for x, n in co.items() if n}, k
    if is_t(t, 'const') and isinstance(t[1], int) and not isinstance(t[1], bool):
        return {}, t[1]
    return {t: 1}, 0


def meet(xs, ys):
    return tuple((max(a, c), min(b, d)) for a, b in xs for c, d in ys if max(a, c) <= min(b, d))


def found(t):
    """the slice of the tokens an index was found in: (the list, where the slice starts)"""
    if is_t(t, 'vf') and t[2] == 'Some' and t[3] == '0' and is_t(t[1], 'iter') and t[1][1] in ('position', 'rposition'):
        s = t[1][2]
        while is_t(s, 'mut'):
            s = s[1]
        if is_t(s, 'slice') and is_t(s[2], 'agg') and s[2][1].endswith('RangeFrom'):
            return strip(s[1]), dict(s[2][3])['start']
        if is_t(s, 'param'):
            return s, ('const', 0)
    return None


class Bounds:
    """what the conditions of one path say about positions"""

    def __init__(self, w, nt, cj):
        self.w, self.nt, self.a, self.cj = w, nt, w.autos[nt], cj
        self.facts = {}
        self.bases = set()
        for at, v in cj:
            if at[0] != 'n':
                continue
            co, k = linear(at[1])
            self.add(co, tuple((lo - k if lo > -INF else lo, hi - k if hi < INF else hi) for lo, hi in v))
        for key in list(self.facts):
            for x, n in key:
                if w.tracked(self.nt, x):
                    self.bases.add(x)
        for b in self.bases:
            self.add({w.len(nt): 1, b: -1}, ((0, INF),))
        self.dead = any(not v for v in self.facts.values())

    def add(self, co, iv):
        if not co:
            return
        key = tuple(sorted(co.items(), key=repr))
        if key[0][1] < 0:
            key = tuple((x, -n) for x, n in key)
            iv = tuple((-hi, -lo) for lo, hi in iv)
        self.facts[key] = meet(self.facts.get(key, ((-INF, INF),)), iv)

    def least(self, co, k):
        """the least value of a linear term that the facts allow"""
        if not co:
            return k
        key = tuple(sorted(co.items(), key=repr))
        s = 1
        if key[0][1] < 0:
            key, s = tuple((x, -n) for x, n in key), -1
        iv = self.facts.get(key)
        best = -INF
        if iv is not None:
            if not iv:
                return INF
            best = min(lo for lo, hi in iv) if s == 1 else -max(hi for lo, hi in iv)
        L = self.w.len(self.nt)
        if len(co) == 2 and co.get(L) == 1:
            (b,) = [x for x in co if x != L]
            if co[b] == -1 and self.w.tracked(self.nt, b):
                best = max(best, 0)
        if co == {L: 1}:
            # the length is at least any position, and more where a test says so
            for key in self.facts:
                d = dict(key)
                if len(d) == 2 and L in d:
                    (b,) = [x for x in d if x != L]
                    if d[b] == -d[L]:
                        best = max(best, self.least({L: 1, b: -1}, 0) + self.floor(b))
        elif len(co) == 1 and next(iter(co.values())) == 1:
            best = max(best, self.floor(next(iter(co))))
        for x, n in co.items():
            hit = found(x) if abs(n) == 1 else None
            if hit and hit[0] == self.a.TOK:
                # 0 <= x < len - start
                rest = {y: m for y, m in co.items() if y != x}
                if n > 0:
                    best = max(best, self.least(rest, 0))
                else:
                    c2, k2 = linear(hit[1])
                    for y, m in list(c2.items()) + [(L, -1)]:
                        rest[y] = rest.get(y, 0) + m
                    best = max(best, self.least({y: m for y, m in rest.items() if m}, k2 + 1))
                break
        if iv is not None and best > -INF:
            # a gap in the values a test allows: the least allowed value from there on
            best = min((lo for lo, hi in meet(iv if s == 1 else tuple((-hi, -lo) for lo, hi in iv), ((best, INF),))), default=INF)
        return best + k if best > -INF else -INF

    def diff(self, x, y):
        """the least of x - y"""
        (c1, k1), (c2, k2) = linear(x), linear(y)
        co = dict(c1)
        for b, n in c2.items():
            co[b] = co.get(b, 0) - n
        co = {b: n for b, n in co.items() if n}
        return self.least(co, k1 - k2)

    def holds(self, ok):
        if ok == ('const', True):
            return True
        if not is_t(ok, 'lit'):
            return False
        at, vs = ok[1], ok[2]
        if at[0] != 'n':
            return any(x == at and set(v) <= set(vs) for x, v in self.cj)
        if len(vs) != 1:
            return False
        co, k = linear(at[1])
        (lo, hi), = vs
        return (lo <= -INF or self.least(co, k) >= lo) and (hi >= INF or self.least({b: -n for b, n in co.items()}, -k) >= -hi)

    def inside(self, p):
        """is the position at most the number of tokens?"""
        return self.dead or self.diff(self.w.len(self.nt), p) >= 0

    # ------------------------------------------------ lower bounds
    def call(self, b):
        """(sub-parser, position it was called at, least advance) of the position it left"""
        if not (is_t(b, 'mut') and is_t(b[2], 'c')):
            return None
        nt = self.w.sites[self.nt].get(tuple(b[2][1:]))
        if nt is None:
            return None
        out = frozenset(['Some', 'None'])
        for at, v in self.cj:
            if at[0] == 'is' and at[1][0] in ('call', 'callm') and self.a.par.nt.get(at[1][1]) == nt and len(at[1]) > 3 and at[1][3] is not None \
                    and tuple(at[1][3]) == tuple(b[2][1:]):
                out = out & v
        first = None
        for at, v in self.cj:
            t = at[1]
            if at[0] == 'is' and is_t(t, 'f') and t[2] == 'variant' and is_t(t[1], 'idx') and strip(t[1][1]) == self.a.TOK and linear(t[1][2]) == linear(b[1]):
                first = v if first is None else first & v
        some = first is not None or self.diff(self.w.len(self.nt), b[1]) >= 1
        return nt, b[1], self.w.advance(nt, out, first, some)

    def above(self, x, base):
        """the greatest known n with x >= base + n, following calls and loops back"""
        co, k = linear(x)
        co = {y: n for y, n in co.items() if not (n > 0 and found(y))}
        if co == {base: 1}:
            return k
        if co == {self.w.len(self.nt): 1}:
            return self.least({self.w.len(self.nt): 1, base: -1}, k)
        if len(co) != 1 or next(iter(co.values())) != 1:
            return -INF
        (b,) = co
        c = self.call(b)
        if c:
            return self.above(c[1], base) + c[2] + k
        if is_t(b, 'phi') and self.w.mono(self.nt, b):
            return min((self.above(e, base) for e in self.w.entry(self.nt, b)), default=-INF) + k
        return -INF

    def floor(self, b):
        """the least value of a position"""
        if b == self.a.start:
            return self.w.low[self.nt]
        c = self.call(b)
        if c:
            co, k = linear(c[1])
            return max(0, c[2] + k + (self.floor(next(iter(co))) if len(co) == 1 else 0))
        if is_t(b, 'phi') and self.w.mono(self.nt, b):
            lows = []
            for e in self.w.entry(self.nt, b):
                co, k = linear(e)
                co = {y: n for y, n in co.items() if not (n > 0 and found(y))}
                lows.append(k + (self.floor(next(iter(co))) if len(co) == 1 and next(iter(co.values())) == 1 else 0 if not co else -INF))
            return max(0, min(lows, default=0))
        return 0 if b == self.w.len(self.nt) else -INF


class World:
    def __init__(self, par, rep):
        self.par, self.rep = par, rep
        self.autos = {nt: par.auto(nt) for nt in ORDER}
        self.sites, self.lens = {}, {}
        self.loops = {}         # nt -> {phi: (entry states, latch states, root)}
        self.low = {nt: 0 for nt in ORDER}
        self.prog = {}
        for nt, a in self.autos.items():
            self.lens[nt] = ('call', 'len', (a.TOK,))
            for e in a.an.events:
                for at, v in (x for cj in e['guard'] for x in cj):
                    for t in ([at[1]] if not is_t(at[1], 'lin') else [x for x, n in at[1][1]]):
                        if is_t(t, 'call') and t[1] == 'len' and strip(t[2][0]) == a.TOK:
                            self.lens[nt] = t
            self.sites[nt] = {(e['fid'], e['bb']): par.nt[e['f']] for e in a.an.events if e['kind'] == 'call' and e['f'] in par.nt}
            self.loops[nt] = {}
            for L, sts in a.an.entries.items():
                for root in a.an.mods.get(L, {}):
                    if any(is_t(root, x) for x in ('mon',)):
                        continue
                    lat = a.an.latches.get(L, ())
                    if all(root in s.store for s in list(sts) + list(lat)):
                        self.loops[nt][('phi', L, root)] = (sts, lat, root)
        # which loop variables stay within the list, and which never fall (greatest fixed points)
        self.up = {nt: {p for p in self.loops[nt] if self.number(nt, p)} for nt in ORDER}
        self.in_ = {nt: set(self.up[nt]) for nt in ORDER}
        for nt in ORDER:
            for k in (frozenset(['Some']), frozenset(['None'])):
                self.prog[nt, k] = []
        for turn in range(3):
            for nt in ORDER:
                self.settle(nt)
            for nt in ORDER:
                self.measure(nt)

    def number(self, nt, p):
        """is this loop variable a position: entered and left with linear terms over positions"""
        sts, lat, root = self.loops[nt][p]

        def ok(v):
            if v is None or not isinstance(v, tuple):
                return False
            co, k = linear(v)
            co = {y: n for y, n in co.items() if not (n > 0 and found(y))}
            return not co and isinstance(k, int) or len(co) == 1 and list(co.values()) == [1] and (is_t(next(iter(co)), 'phi') or is_t(next(iter(co)), 'mut') or next(iter(co)) == self.autos[nt].start or next(iter(co)) == self.len(nt))
        return all(ok(s.store[root]) for s in sts) and all(ok(s.store[root]) for s in lat)

    def len(self, nt):
        return self.lens[nt]

    def tracked(self, nt, b):
        """is b a position known to be at most the number of tokens?"""
        return b == self.autos[nt].start or is_t(b, 'phi') and b in self.in_[nt] or is_t(b, 'mut') and is_t(b[2], 'c') and tuple(b[2][1:]) in self.sites[nt]

    def mono(self, nt, b):
        return b in self.up[nt]

    def entry(self, nt, b):
        sts, lat, root = self.loops[nt][b]
        return {s.store[root] for s in sts}

    def conjs(self, nt, st):
        for cj in st.guard:
            b = Bounds(self, nt, cj)
            if not b.dead:
                yield b

    def settle(self, nt):
        self.up[nt] = {p for p in self.loops[nt] if self.number(nt, p)}
        self.in_[nt] = set(self.up[nt])
        while True:
            bad_up = {p for p in self.up[nt] if any(b.above(s.store[self.loops[nt][p][2]], p) < 0 for s in self.loops[nt][p][1] for b in self.conjs(nt, s))}
            self.up[nt] -= bad_up
            bad_in = {p for p in self.in_[nt] if any(not b.inside(s.store[self.loops[nt][p][2]])
                                                     for s in list(self.loops[nt][p][0]) + list(self.loops[nt][p][1]) for b in self.conjs(nt, s))}
            self.in_[nt] -= bad_in
            if not bad_up and not bad_in:
                return

    def measure(self, nt):
        """how far each return has come: (outcome, first tokens, there is a token, least advance)"""
        a = self.autos[nt]
        rows = []
        for st, rv in a.rets:
            p = st.store.get(a.root)
            out = frozenset(['Some', 'None'])
            if is_t(rv, 'agg') and rv[2] in ('Some', 'None'):
                out = frozenset([rv[2]])
            for b in self.conjs(nt, st):
                first = None
                for at, v in b.cj:
                    t = at[1]
                    if at[0] == 'is' and is_t(t, 'f') and t[2] == 'variant' and is_t(t[1], 'idx') and strip(t[1][1]) == a.TOK and t[1][2] == a.start:
                        first = v
                end = b.least({a.start: 1, self.len(nt): -1}, 0) >= 0
                o = out
                for at, v in b.cj:
                    if at[0] == 'is' and at[1] == rv and len(out) > 1:
                        o = out & v
                rows.append((o, first, end, b.above(p, a.start) if p is not None else -INF))
        self.prog[nt] = rows

    def advance(self, nt, out, first, some):
        rows = self.prog.get(nt)
        if rows is None:
            return 0          # at most one level of recursion is unfolded: the induction on the call depth gives no falling back
        n = [k for o, f, end, k in rows if o & out and not (f is not None and first is not None and not f & first) and not (end and some)]
        return min(n, default=INF)


def check(prog, rep):
    par = Parser(prog, rep, helpers=(), exact=True)
    if not par.ok:
        return
    w = World(par, rep)
    c = w.autos['SCHEMA'].c
    # the least position a function is called at: the type of a field comes after its name
    for nt in ORDER[1:]:
        lows = []
        for m in ORDER[:ORDER.index(nt)]:
            for e in w.autos[m].an.events:
                if e['kind'] == 'call' and e['f'] == par.fns[nt]:
                    co, k = linear(e['args'][par.at[nt]['pos']])
                    for cj in e['guard']:
                        b = Bounds(w, m, cj)
                        if not b.dead:
                            lows.append(k + (b.floor(next(iter(co))) if len(co) == 1 else 0))
        w.low[nt] = max(0, min(lows, default=0))
    calls = 0
    for nt in ORDER:
        a = w.autos[nt]
        what = nt.lower()
        for e in a.an.events:
            if e['kind'] == 'call' and e['f'] in par.nt:
                calls += 1
                m = par.nt[e['f']]
                x = e['args'][par.at[m]['pos']]
                rep.ob(strip(e['args'][par.at[m]['tokens']]) == a.TOK, 'tokens:' + what, 'a sub-parser works on other tokens', e['site'])
                co, k = linear(x)
                for cj in e['guard']:
                    b = Bounds(w, nt, cj)
                    if b.dead:
                        continue
                    rep.ob(b.inside(x), 'outside:call:%s:%s' % (what, m.lower()), 'the parser of %s calls that of %s at %s, which may be behind the last token, if {%s}'
                           % (what, m.lower(), c(x)[:80], c.show([cj])[:300]), e['site'])
                    if m not in ORDER[ORDER.index(nt) + 1:]:
                        rep.ob(b.above(x, a.start) >= 1, 'recursion:' + m.lower(), 'the parser of %s calls that of %s without having read a token, if {%s}'
                               % (what, m.lower(), c.show([cj])[:300]), e['site'])
                    rep.ob(k + (b.floor(next(iter(co))) if len(co) == 1 else 0) >= w.low[m], 'early:%s:%s' % (what, m.lower()),
                           'the parser of %s is called too early' % m.lower(), e['site'])
            elif e['kind'] == 'assert':
                if str(e['akind']).startswith('overflow:Add'):
                    continue
                for cj in e['guard']:
                    b = Bounds(w, nt, cj)
                    if b.dead:
                        continue
                    kind = str(e['akind'])
                    ok = sliced(b, e['ops'][1]) if kind == 'sliceindex' and strip(e['ops'][0]) == a.TOK else e['ok'] is not None and b.holds(e['ok'])
                    rep.ob(ok, '%s:%s' % ('index' if 'bounds' in kind else kind, what),
                           ('the parser of %s reads token %s of %s, which may not exist' % (what, c(e['ops'][1])[:80], c(e['ops'][0])[:60]) if 'bounds' in kind else
                            'the parser of %s may fail in %s of %s' % (what, kind, [c(x)[:60] for x in e['ops']])) + ', if {%s}' % c.show([cj])[:400], e['site'])
            elif e['kind'] == 'panic':
                live = [cj for cj in e['guard'] if not Bounds(w, nt, cj).dead]
                rep.ob(not live, 'panic:' + what, 'the parser of %s can panic in %s, if {%s}' % (what, e['f'], c.show(live)[:400]), e['site'])
        for st, rv in a.rets:
            p = st.store.get(a.root)
            for b in w.conjs(nt, st):
                rep.ob(p is not None and b.inside(p), 'outside:return:' + what, 'the parser of %s returns with the position %s, which may be behind the last token, if {%s}'
                       % (what, c(p)[:80] if p is not None else '?', c.show([b.cj])[:300]))
                rep.ob(p is not None and b.above(p, a.start) >= 0, 'back:return:' + what, 'the parser of %s may return with a position before the one it was called at, if {%s}'
                       % (what, c.show([b.cj])[:300]))
        for L in a.an.entries:
            ph = [p for p in w.loops[nt] if p[1] == L and p in w.in_[nt]]
            good = [p for p in ph if all(b.above(s.store[w.loops[nt][p][2]], p) >= 1 for s in w.loops[nt][p][1] for b in w.conjs(nt, s))]
            by = [p for p in w.loops[nt] if p[1] == L]
            why = ''
            for p in by:
                for s in w.loops[nt][p][1]:
                    for b in w.conjs(nt, s):
                        if p[2] == a.root and (b.above(s.store[p[2]], p) < 1 or not b.inside(s.store[p[2]])):
                            why = why or ': an iteration ends at %s, if {%s}' % (c(s.store[p[2]])[:80], c.show([b.cj])[:300])
            rep.ob(bool(good) or finite(a, L), 'loop:' + what, 'a loop in the parser of %s does not advance within the tokens in every iteration%s' % (what, why))
    rep.ob(calls >= 4, 'anchor:calls', 'the parsing functions do not call each other')
    # from outside, parsing starts at a position within every list
    n = 0
    for name, f in prog.raw.items():
        if 'tests' in name or name in par.nt or par.fns['SCHEMA'] not in prog.calls.get(name, ()):
            continue
        an = Analyzer(prog, opaque=opaque(set(par.fns.values())), errty='-')
        try:
            an.analyze(name)
        except (Fail, RecursionError) as e:
            rep.fail('analysis:' + name, 'the analysis of %s cannot follow the code: %r' % (name, e))
            continue
        rep.used(an)
        for e in an.events:
            if e['kind'] == 'call' and e['f'] == par.fns['SCHEMA']:
                n += 1
                x = strip(e['args'][par.at['SCHEMA']['pos']])
                rep.ob(linear(x) == ({}, 0), 'start', '%s starts parsing at %s' % (name, c(x)[:80]), e['site'])
    rep.ob(n > 0, 'anchor:start', 'nothing starts the parser')


def sliced(b, r):
    """is this range of the tokens within the list?"""
    if not is_t(r, 'agg'):
        return False
    d = dict(r[3])
    lo, hi = d.get('start'), d.get('end')
    if r[1].endswith('RangeFull'):
        return True
    if r[1].endswith('RangeInclusive') or not d:
        return False
    return (hi is None or b.inside(hi)) and (lo is None or b.inside(lo) if hi is None else lo is None or b.diff(hi, lo) >= 0)


def finite(a, L):
    """is the loop over the elements of an iterator?"""
    lat = a.an.latches.get(L, ())
    return bool(lat) and all(any(at[0] == 'is' and is_t(at[1], 'next') and v == frozenset(['Some']) for at, v in cj) for s in lat for cj in s.guard)
