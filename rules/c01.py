"""Nothing is emitted by `generate` unless the whole schema set was loaded and validated."""
from cli import *

EXPLANATION = ('Guarded-event dataflow over the whole program inlined from main: every call that produces generate output '
               '(file writes, directory creation, generator runs, listing on stdout) must carry, on every path, the '
               'outcomes "schemas loaded" and "the same schemas validated", and the set given to the generators must be '
               'the validated one, unmodified.')
FLOORS = {'obligations': 12, 'functions': 2}
OUT = ('fs::write', 'fs::create_dir_all', 'io::_print', 'generate_rust::generate', 'generate_typescript::generate')


def check(prog, rep):
    m = Cli(prog, rep)
    seen = set()
    for e in m.events:
        if e['kind'] != 'call':
            continue
        eff = e['f'] in OUT or FS_EFFECT.match(e.get('path') or '') and e['f'] not in ('process::exit',)
        if not eff:
            continue
        gen = e['f'].startswith('generate_')
        for cj, lits in m.conjs(e):
            md = mode(lits | set(e['cargs']))
            if md in ('format', 'shell') and not gen:
                continue
            seen.add(e['f'])
            ok = GLOAD in lits and GVAL in lits
            rep.ob(ok, 'unvalidated:' + e['f'], '%s can be reached in the generate command without the schemas having been '
                   'loaded and validated; path: {%s}' % (e['f'], '; '.join(sorted(lits))[:900]), e['site'])
        if gen:
            rep.ob(len(e['cargs']) > 1 and e['cargs'][1] == GS, 'unvalidated-input:' + e['f'],
                   '%s is given %s, not the validated schema set' % (e['f'], e['cargs'][1:]), e['site'])
            rep.ob(not any(mutated(a) for a in e['rargs']), 'modified:' + e['f'],
                   'the schema set is modified between validation and %s' % e['f'], e['site'])
    for e in m.calls('validator::validate'):
        rep.ob(not any(mutated(a) for a in e['rargs']), 'modified:validate', 'the schema set is modified before validation', e['site'])
    for f in ('fs::write', 'generate_rust::generate', 'generate_typescript::generate'):
        rep.ob(f in seen, 'anchor:' + f, 'no call of %s found in the generate command' % f)
    from errs import discipline
    discipline(rep, prog, 'schema_loader::load_schemas')
    discipline(rep, prog, 'validator::validate')
