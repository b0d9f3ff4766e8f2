"""The validator rejects nothing but the documented violations."""
from valid import *
import c08
import c09

EXPLANATION = ('Guard-table analysis of the validator: every recorded error must be recorded under a condition that is one of the documented '
               'violations (repeated or reused names and indices, index limit and gaps, unresolved imports or types, cycles), in the loop '
               'that enumerates the offending construct, with the detecting sets filled from nothing else.')
FLOORS = {'obligations': 5, 'functions': 2}


def check(prog, rep):
    v = Valid(prog, rep)
    if v.an is None:
        return
    allowed = [frozenset(frozenset(x) for x in g) for _, g, _ in c08.RULES] + [frozenset(frozenset(x) for x in g) for g in c08.GAPS]
    allowed += c09.conditions(v)
    n = 0
    for g, es in v.errors():
        for cj in g:
            if any(x.startswith('get(SCHEMA.imports, ') and x.endswith('.Some.namespace is None') for x in cj):
                continue  # the loader has resolved every import: C06
            n += 1
            ok = any(any(x <= cj for x in a) for a in allowed) or cycle(cj)
            rep.ob(ok, 'spurious', 'an error is recorded although no rule is violated: only required %s' % sorted(cj), es[0]['site'])
    rep.ob(n > 0, 'anchor:errors', 'the validator records no error')
    for b, s in v.sets.items():
        if is_t(b, 'iter'):
            continue  # collected once, asked only
        if s['name'] in ('S:DECL.name', 'S:FIELD.name', 'S:FIELD.index'):
            made = {v.where(e) for e in v.events if e['kind'] == 'new' and e['obj'] == b}
            want = (c08.FILES,) if s['name'] == 'S:DECL.name' else (c08.FILES, c08.DECLS)
            rep.ob(made == {want}, 'scope:' + s['name'], 'the set that detects repetitions is created per %s instead of per %s' % (sorted(made), want), min(s['sites']))
        elif any(k in ('DECL.name', 'FIELD.name', 'FIELD.index') for k in s['keys']):
            rep.fail('mixed:' + s['name'], 'one set detects repetitions of different things: %s' % sorted(s['keys']), min(s['sites']))


def cycle(cj):
    """the condition of a cycle: a declaration met again while it is being visited"""
    return any(x.startswith('in((NS, DECL.name), S:') for x in cj)
