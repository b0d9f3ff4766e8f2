"""Each output option of `generate` produces exactly its own output, at the requested place, from the validated set."""
from cli import *

EXPLANATION = ('Guarded-event dataflow with ghost state over the program inlined from main: every file write of the generate command '
               'must be the output of the generator of the option whose path it goes to, run on the program version and the loaded set, '
               'after the parent directory was created; at every successful exit a file was written for exactly the options given; with '
               'the listing option the path of every loaded schema is printed, and never without it.')
FLOORS = {'obligations': 15, 'functions': 2}
OPT = {'generate_rust::generate': RUST, 'generate_typescript::generate': TS}
T, F = ('const', True), ('const', False)
ITEM = re.compile(re.escape('join(parent(%s).Some, val(%s).1)' % (GP, GS)))


def which(e, c):
    """the option a write event serves, or None"""
    a = [written(x) for x in e['args']]
    if len(a) < 2:
        return None
    gens = {x[1] for x in walk(a[1]) if is_t(x, 'call') and x[1] in OPT}
    if is_t(a[1], 'call') and a[1][1] in OPT and c(a[0]) == OPT[a[1][1]] + '.Some' and len(gens) == 1:
        return a[1][1]
    return None


def check(prog, rep):
    c = Canon([(is_matches, 'M')])
    holder = [None]

    def monitor(e, st):
        if e['kind'] == 'call' and e['f'] == 'fs::write':
            w = which(e, c)
            if w:
                k = (('mon', w), ())
                holder[0].write(st, k, T)

    an = Analyzer(prog, opaque=opaque(), monitors=monitor)
    holder[0] = an

    def init(st):
        for k in OPT:
            st.store[('mon', k)] = F
    if not prog.has('main'):
        rep.fail('anchor:main', 'no main')
        return
    rets = analyze_with(rep, an, 'main', init)
    if rets is None:
        return
    writes, prints = set(), 0
    for e in an.events:
        if e['kind'] != 'call':
            continue
        if e['f'] == 'fs::write':
            w = which(e, c)
            for cj in e['guard']:
                lits = c.conj(cj)
                if mode(lits | {c(x) for x in e['args']}) != 'generate':
                    continue
                g = '; '.join(sorted(lits))[:600]
                rep.ob(w is not None, 'mismatch', 'generate writes %s to %s' % (c(e['args'][1])[:200], c(e['args'][0])[:200]), e['site'])
                if w:
                    writes.add(w)
                    p = OPT[w] + '.Some'
                    rep.ob(OPT[w] + ' is Some' in lits, 'unrequested:' + w, 'output of %s is written without being requested; path: {%s}' % (w, g), e['site'])
                    rep.ob('parent(%s) is None' % p in lits or 'create_dir_all(parent(%s).Some) is Ok' % p in lits, 'directory:' + w,
                           'the directory of the output file is not created before it is written; path: {%s}' % g, e['site'])
                    arg = written(e['args'][1])
                    rep.ob(c(arg[2][0]) == c(('const', prog_version(prog))) if prog_version(prog) else is_t(arg[2][0], 'const'), 'version:' + w,
                           'the generator is given %s as the version of the program' % c(arg[2][0])[:100], e['site'])
                    rep.ob(c(arg[2][1]) == GS, 'input:' + w, 'the generator is given %s instead of the loaded schemas' % c(arg[2][1])[:200], e['site'])
        if e['f'] == 'fs::create_dir_all':
            for cj in e['guard']:
                lits = c.conj(cj)
                p = c(e['args'][0])
                opt = [o for o in OPT.values() if p == 'parent(%s.Some).Some' % o]
                if mode(lits | {p}) == 'generate':
                    rep.ob(opt and opt[0] + ' is Some' in lits, 'unrequested-directory', 'generate creates the directory %s' % p[:200], e['site'])
        if e['f'] == 'io::_print':
            text = ' '.join(c(a) for a in e['args'])
            for cj in e['guard']:
                lits = c.conj(cj)
                if mode(lits | {text}) != 'generate':
                    continue
                g = '; '.join(sorted(lits))[:600]
                rep.ob(LIST in lits, 'unrequested-list', 'generate prints to stdout without the listing option; path: {%s}' % g, e['site'])
                ok = ITEM.search(text)
                rep.ob(ok, 'list-item', 'the listing prints %s instead of the path of each schema' % text[:300], e['site'])
                cond = [x for x in lits if ('val(%s)' % GS in x or 'key(%s)' % GS in x or x.startswith(('¬pos', 'pos'))) and ' is Err' not in x]
                rep.ob(not cond, 'list-skips', 'the listing skips schemas: printed only if %s' % cond, e['site'])
                prints += bool(ok and not cond)
    for w in OPT:
        rep.ob(w in writes, 'anchor:' + w, 'generate never writes the output of %s' % w)
    rep.ob(prints > 0, 'anchor:list', 'generate never lists the schemas')
    oks = 0
    for st, rv in rets:
        for cj in st.guard:
            lits = c.conj(cj)
            if mode(lits) != 'generate':
                continue
            oks += 1
            g = '; '.join(sorted(lits))[:600]
            for w, o in OPT.items():
                done = st.store.get(('mon', w)) == T
                rep.ob(done or o + ' is None' in lits, 'unwritten:' + w, 'generate can succeed without writing the requested output of %s; path: {%s}' % (w, g))
            srcs = {c(s) for s in exhausted(cj)}
            rep.ob('¬' + LIST in lits or GS in srcs or hof_list(an, c), 'unlisted', 'generate can succeed with the listing option without listing every schema; path: {%s}' % g)
    rep.ob(oks > 0, 'anchor:success', 'generate cannot succeed')


def hof_list(an, c):
    return any(e['kind'] == 'consume' and c(e['src']) == GS for e in an.events)


def prog_version(prog):
    return None
