"""Every ill-formed declaration is rejected."""
from valid import *

EXPLANATION = ('Guard-table analysis of the validator: for each well-formedness rule (unique declaration names per file, unique field names '
               'and indices per declaration, no reuse of deleted indices, index limit, no index gaps) an error must be recorded under '
               'exactly the violating condition, weakened by nothing else, in the loop over all schemas, declarations and fields; the sets '
               'that detect repetitions must be created in the right scope and filled unconditionally.')
FLOORS = {'obligations': 12, 'functions': 2}
FILES, DECLS, FIELDS = 'arg0', 'SCHEMA.declarations', 'DECL.fields'
RULES = [
    ('declaration-name', [{'in(DECL.name, S:DECL.name)'}], (FILES, DECLS)),
    ('field-name', [{'in(FIELD.name, S:FIELD.name)'}], (FILES, DECLS, FIELDS)),
    ('field-index', [{'in(FIELD.index, S:FIELD.index)'}], (FILES, DECLS, FIELDS)),
    ('deleted-index', [{'in(FIELD.index, DECL.deleted)'}], (FILES, DECLS, FIELDS)),
    ('index-limit', [{'FIELD.index in [4611686018427387904,inf]'}], (FILES, DECLS, FIELDS)),
]
GAPS = [[{'¬in(elem(%s), S:FIELD.index)' % r, '¬in(elem(%s), DECL.deleted)' % r}] for r in ALLRANGE]


def errors_of(v):
    return [(g, es, {v.where(e) for e in es}) for g, es in v.errors()]


def check(prog, rep):
    v = Valid(prog, rep)
    if v.an is None:
        return
    errs = errors_of(v)

    def demand(name, alts, loops):
        ok = any(g == frozenset(frozenset(x) for x in alt) and loops in ls for alt in alts for g, es, ls in errs)
        near = [(sorted(sorted(x) for x in g), es[0]['site']) for g, es, ls in errs if any(set().union(*alt) & set().union(*g) for alt in alts)]
        rep.ob(ok, 'rule:' + name, 'no error is recorded exactly when %s; related errors: %s' % (' and '.join(sorted(set().union(*alts[0]))), near[:3]), near[0][1] if near else '')
    for name, g, loops in RULES:
        demand(name, [g], loops)
    gap(rep, errs, v)
    v.scope('S:DECL.name', 'DECL.name', (FILES, DECLS), (FILES,))
    v.scope('S:FIELD.name', 'FIELD.name', (FILES, DECLS, FIELDS), (FILES, DECLS))
    v.scope('S:FIELD.index', 'FIELD.index', (FILES, DECLS, FIELDS), (FILES, DECLS))
    complete(prog, rep, v)


def gap(rep, errs, v):
    ok, near = False, []
    for g, es, ls in errs:
        for r, alt in zip(ALLRANGE, GAPS):
            if g == frozenset(frozenset(x) for x in alt):
                if any(l[:2] == (FILES, DECLS) and l[-1] == r for l in ls):
                    # all fields have been entered before
                    if all(any(v.c(s) == FIELDS for s in exhausted(cj)) for e in es for cj in e['guard']):
                        ok = True
        if any('Range' in x for cj in g for x in cj):
            near.append((sorted(sorted(x) for x in g), es[0]['site']))
    rep.ob(ok, 'rule:index-gap', 'no error is recorded exactly when an index below the number of used and deleted indices is neither used nor '
           'deleted; related errors: %s' % near[:2], near[0][1] if near else '')


def complete(prog, rep, v):
    """no loop over files, declarations or fields is left early"""
    state = {'n': 0}
    c = Canon()
    want = {'arg0': None, 'val(arg0).0.declarations': 'elem(val(arg0).0.declarations).fields'}

    def latch(an, st, L):
        srcs = {c(a[1][1]) for cj in st.guard for a, w in cj if a[0] == 'is' and is_t(a[1], 'next') and a[1][2] == L and 'Some' in w}
        for cj in st.guard:
            done = {c(s) for s in exhausted(cj)}
            flat = L in v.inner and v.inner[L] == DECLS
            if srcs == {'val(arg0).0.declarations'} or srcs == {'arg0'} and flat:
                if first(an, L):
                    state['n'] += 1
                    rep.ob(want['val(arg0).0.declarations'] in done, 'fields-partial', 'not every field of a declaration is checked')
            if srcs == {'arg0'} and not flat and first(an, L):
                rep.ob('val(arg0).0.declarations' in done, 'declarations-partial', 'not every declaration of a file is checked')

    def first(an, L):
        return L in checking
    # the loops that contain error pushes of the rules (not the table of types nor the cycle check)
    checking = set()
    for e in v.events:
        if e['kind'] == 'call' and e['f'] == 'Vec::push' and 'fields' in ' '.join(c(x[0][1]) for cj in e['guard'] for x in cj) and len(v.where(e)) >= 3:
            checking |= {L for L in e['loops'] if v.src.get(L) in (FILES, DECLS)}
    an = Analyzer(prog, opaque=opaque(minus={'validator::validate'}), latch_hook=latch, errty='-')
    rets = analyze_with(rep, an, 'validator::validate')
    rep.ob(state['n'] > 0, 'anchor:loops', 'no loop over the declarations of a file')
    for st, rv in rets or []:
        for cj in st.guard:
            rep.ob('arg0' in {c(s) for s in exhausted(cj)}, 'files-partial', 'the validator can finish without checking every file')
