"""Exactly the documented grammar is accepted."""
from grammar import *

EXPLANATION = ('Grammar extraction: from the guarded position updates of the parser\'s functions a token automaton with lookahead is built '
               '(nodes: entry, loop heads, return; edges: consumed token kinds, sub-parsers, lookahead), for the paths on which no error is '
               'recorded; its language is compared with the documented grammar by determinisation and product search, in both directions, '
               'over all token sequences of any length. The only other reasons to reject are a repeated import, a repeated deleted index and an '
               'import without a name. Every path that returns nothing has recorded an error, and left-over tokens are an error.')
FLOORS = {'obligations': 40, 'functions': 2}
DUP = ('HashMap::insert', 'BTreeMap::insert', 'HashSet::insert', 'BTreeSet::insert', 'HashMap::contains_key', 'BTreeMap::contains_key', 'HashSet::contains', 'BTreeSet::contains', 'get')


def kind(auto, a):
    x = a[1]
    if x[0] in ('call', 'callm') and x[1] in DUP and is_t(base(x[2][0]), 'new'):
        return 'duplicate'
    if a[0] == 'is' and contains(x, lambda y: is_t(y, 'call') and y[1].endswith('file_stem')):
        return 'stem'
    if a[0] == 'n' and is_t(x, 'lin') and all(contains(k, lambda y: is_t(y, 'f') and y[2] == 'source_range') for k, _ in x[1]):
        return 'layout'
    return None


def check(prog, rep):
    par = Parser(prog, rep)
    if not par.ok:
        return
    for nt in ('TYPE', 'FIELD', 'IMPORT', 'SCHEMA'):
        language(par, rep, nt)
    whole(par, prog, rep)


def language(par, rep, nt):
    a = par.auto(nt)
    good = [e for e in a.edges if not e['err']]
    # returning nothing means an error
    for e in good:
        if e['dst'] == 'ret' and nt != 'SCHEMA' and not (is_t(e['rv'], 'agg') and e['rv'][2] == 'Some'):
            rep.fail('silent:' + nt, 'the parser of %s can return nothing without recording an error, if %s' % (nt.lower(), a.c.show([e['cj']])[:300]))
    # conditions that are not about tokens
    layouts = {}
    for at, vals in a.conditions().items():
        k = kind(a, at)
        rep.ob(k is not None, 'condition:%s' % nt, 'the parser of %s makes the grammar depend on %s' % (nt.lower(), a.c(at[1])[:200]))
        if k == 'layout':
            layouts[at] = vals
        if k == 'duplicate':
            pol = {('Some' in v) if at[0] == 'is' else ((True in v) == (not at[1][1].endswith('insert'))) for v in vals}
            rep.ob(pol == {False}, 'duplicate:%s' % nt, 'a repetition is accepted or a first occurrence rejected: %s' % a.c(at[1])[:200])
    # the layout may not change the language: compare under every outcome
    cases = [good]
    for at, vals in layouts.items():
        points = sorted({x for v in vals for lo, hi in v for x in (lo, hi) if -INF < x < INF})
        cases = [[e for e in use if all(b != at or any(lo <= x <= hi for lo, hi in v) for b, v in e['other'])] for use in cases for x in points or [0]]
    ok = True
    for use in cases:
        ok = ok and a.compare(reference(par, nt), use, 'grammar:' + nt)
    rep.ob(ok, 'language:' + nt, 'the language of %s differs from the documented grammar' % nt.lower())
    for k, m in sorted(set(a.problems)):
        rep.fail('%s:%s' % (k, nt), m)
    rep.ob(bool(good), 'anchor:edges:' + nt, 'the parser of %s accepts nothing' % nt.lower())


def whole(par, prog, rep):
    """the whole token sequence is parsed"""
    top = [n for n in prog.raw if par.fns['SCHEMA'] in prog.reach(prog.calls.get(n, ())) and n.startswith('parser::') and '{' not in n and 'tests' not in n]
    top = [n for n in top if n != par.fns['SCHEMA'] and str(prog.raw[n]['locals'][0]).startswith('std::result::Result<schema::Schema')]
    top = [n for n in top if not any(n in prog.reach(prog.calls.get(m, ())) for m in top if m != n)]
    if not rep.ob(len(top) == 1, 'anchor:parse', 'there is no single function that parses a whole schema'):
        return
    an, rets = analyze(rep, prog, top[0], extra=tuple(par.fns.values()) + tuple(h for h in par.HELP if prog.has(h)))
    c = Canon()
    n = 0
    toks = [str(x) for x in prog.raw[top[0]]['locals'][1:]].index('&[token::Token]')
    for st, rv in rets:
        if not (is_t(rv, 'agg') and rv[2] == 'Ok'):
            continue
        n += 1
        v = strip(rv[3][0][1])
        call = v if v[0] in ('call', 'callm') and v[1] == par.fns['SCHEMA'] else None
        rep.ob(call is not None, 'whole:result', 'what is returned is not the parsed schema but %s' % c(v)[:200])
        if call is None:
            continue
        raw = rv[3][0][1]
        site = raw[3] if is_t(raw, 'callm') else ()
        for cj in st.guard:
            full = clean = False
            for a, w in cj:
                if a[0] == 'n' and is_t(a[1], 'lin') and len(a[1][1]) == 2 and len(w) == 1 and w[0] == (a[1][2], a[1][2]):
                    co = dict(a[1][1])
                    full |= any(is_t(x, 'call') and x[1] == 'len' and strip(x[2][0]) == ('param', toks) for x in co) and \
                        any(is_t(x, 'mut') and is_t(x[2], 'c') and tuple(x[2][1:]) == tuple(site) for x in co) and sum(co.values()) == 0
                if a[0] == 'n' and is_t(a[1], 'call') and a[1][1] == 'len' and w == ((0, 0),):
                    clean |= base(a[1][2][0]) == base(call[2][par.at['SCHEMA']['errors']])
            rep.ob(clean, 'whole:errors', 'a schema is accepted although errors were recorded: only required %s' % c.show([cj])[:300])
            rep.ob(full, 'whole:rest', 'a schema is accepted although not all tokens were parsed: only required %s' % c.show([cj])[:300])
    rep.ob(n > 0, 'anchor:accept', 'no schema is ever accepted')
    # the parse starts at the first token
    for e in an.events:
        if e['kind'] == 'call' and e['f'] == par.fns['SCHEMA']:
            p = e['args'][par.at['SCHEMA']['pos']]
            rep.ob(p == ('const', 0), 'whole:start', 'parsing does not start at the first token but at %s' % c(p)[:80], e['site'])
