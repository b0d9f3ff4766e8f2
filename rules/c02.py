"""`format --check` never writes and fails exactly on a mismatch; `format` rewrites exactly the mismatching files."""
from cli import *
from engine import lin_add

EXPLANATION = ('Guarded-event dataflow with ghost state over the program inlined from main: the rule tracks, per schema of the '
               'loaded set, whether its contents were compared with its rendering, whether a mismatch was seen and whether it was '
               'written, and checks every loop iteration and every exit of the format command against the three clauses.')
FLOORS = {'obligations': 8, 'functions': 2}

CMP = "eq(val(%s).2, f\"{val(%s).0}\")" % (FS, FS)
CMP2 = "eq(f\"{val(%s).0}\", val(%s).2)" % (FS, FS)
PATH = 'join(parent(%s).Some, val(%s).1)' % (FP, FS)
TEXT = 'f"{val(%s).0}"' % FS
T, F, U = ('const', True), ('const', False), ('const', '?')


def ghost(an, st, k, v=None):
    if v is None:
        return st.store.get(('mon', k), F)
    an.write(st, (('mon', k), ()), v)


def check(prog, rep):
    c = Canon([(is_matches, 'M')])
    loops = {}
    cmp_ok = [0]
    tally = {}  # counters and lists of the loop over the schemas: do they grow exactly at a mismatch?

    def impossible(cj, store):
        """the conditions contradict what was seen: the count of the mismatches, or the mode the mismatches were seen in"""
        mm = store.get(('mon', 'mm'))
        lits = c.conj(cj)
        if store.get(('mon', 'mw')) == T and CHECK in lits or store.get(('mon', 'mc')) == T and '¬' + CHECK in lits:
            return True
        for a, v in cj:
            if a[0] != 'n' or mm not in (T, F):
                continue
            t = a[1]
            for (L, root), good in tally.items():
                mine = t == ('phi', L, root) or is_t(t, 'call') and t[1] == 'len' and good is not True and good is not False and base(t[2][0]) == good
                if good is False or not mine or good is not True and not pushed(good):
                    continue
                if all(started(x.store.get(root)) for x in an.entries.get(L, ())):
                    if all(lo >= 1 for lo, hi in v) and mm == F or all(hi <= 0 for lo, hi in v) and mm == T:
                        return True
        return False

    def pushed(b):
        """a list that only ever grows"""
        return all(e['f'] == 'Vec::push' or e['f'].split('::')[-1] in ('len', 'is_empty', 'iter', 'first', 'last', 'deref', 'as_slice') for e in an.events
                   if e['kind'] == 'call' and not e.get('local') and any(base(x) == b for x in e['rargs'][:1]))

    def started(v):
        return v == ('const', 0) or is_t(v, 'new')

    def branch(an, st, l):
        a, v = l
        if a[0] != 'b':
            return
        s = c(a[1])
        if s in (CMP, CMP2):
            ghost(an, st, 'seen', T)
            if v == frozenset([False]):
                ghost(an, st, 'mm', T)
                ghost(an, st, 'now', T)
                ghost(an, st, 'pend', T)
        elif is_t(a[1], 'iter') and a[1][1] in ('any', 'all') and c(a[1][2]) == FS and ('¬' + CMP if a[1][1] == 'any' else CMP) in s:
            if v == frozenset([a[1][1] == 'any']):
                ghost(an, st, 'mm', T)
            ghost(an, st, 'allseen', T)

    def monitor(e, st):
        if e['kind'] == 'call' and e['f'] == 'fs::write' and tuple(c(written(a)) for a in e['args']) == (PATH, TEXT):
            ghost(holder[0], st, 'pend', F)

    def latch(an, st, L):
        # only loops over the loaded schemas in the format command
        src = [strip(a[1][1]) for cj in st.guard for a, v in cj if a[0] == 'is' and is_t(a[1], 'next') and a[1][2] == L and v == frozenset(['Some'])]
        if not any(c(s) == FS for s in src):
            return
        loops[L] = loops.get(L, 0) + 1
        now = ghost(an, st, 'now') == T
        for root in an.mods.get(L, {}):
            v = st.store.get(root)
            if root[0] == 'mon' or v is None:
                continue
            heads = {h.store.get(root) for h in an.heads.get(L, ())}
            if heads == {('phi', L, root)}:
                d = lin_add(v, ('phi', L, root), -1)
                good = is_t(d, 'const') and (d[1] > 0) == now and d[1] >= 0
            elif is_t(base(v), 'new') and heads == {('mut', base(v), ('loop', L))}:
                good = base(v) if (v not in heads) == now else False
            else:
                continue
            if tally.get((L, root), good) != good:
                good = False
            tally[(L, root)] = good
        if now:
            lits = [c.conj(cj) for cj in st.guard]
            if lits and all(CHECK in x for x in lits):
                ghost(an, st, 'mc', T)
            elif lits and all('¬' + CHECK in x for x in lits):
                ghost(an, st, 'mw', T)
            ghost(an, st, 'now', F)
        if ghost(an, st, 'pend') != F:
            for cj in st.guard:
                lits = c.conj(cj)
                rep.ob(CHECK in lits, 'unwritten', 'format leaves a file that is not formatted unwritten; path: {%s}' % '; '.join(sorted(lits))[:700])
            ghost(an, st, 'pend', F)
        if ghost(an, st, 'seen') == T:
            cmp_ok[0] += 1
        elif ghost(an, st, 'allseen') != T and any(c(a[1]).find('write(') >= 0 or True for cj in st.guard for a, v in cj):
            uncompared.append((L, c.show(st.guard)[:700]))
        ghost(an, st, 'seen', F)

    uncompared = []
    holder = [None]
    an = Analyzer(prog, opaque=opaque(), monitors=monitor, branch_hook=branch, latch_hook=latch)
    holder[0] = an

    def init(st):
        for k in ('mm', 'pend', 'seen', 'allseen', 'now', 'mc', 'mw'):
            st.store[('mon', k)] = F
    if not prog.has('main'):
        rep.fail('anchor:main', 'no main')
        return
    rets = analyze_with(rep, an, 'main', init)
    if rets is None:
        return
    # the hooks ran on every round of the fixpoint; obligations of the last round are what counts
    rep.ob(cmp_ok[0] > 0, 'anchor:compare', 'format never compares the contents of a schema file with its rendering')
    full = {L for L, _ in uncompared}
    rep.ob(not (full and len(full) >= len(loops)), 'uncompared', 'an iteration over the loaded schemas skips the comparison: %s' % (uncompared[:1],))
    writes = 0
    for e in an.events:
        if e['kind'] != 'call':
            continue
        args = tuple(c(written(a)) for a in e['args'])
        if e['f'] in ('fs::write', 'fs::create_dir_all') or FS_EFFECT.match(e.get('path') or '') and e['f'] != 'process::exit':
            for cj in e['guard']:
                lits = c.conj(cj)
                if mode(lits | set(args)) != 'format':
                    continue
                writes += 1
                g = '; '.join(sorted(lits))[:700]
                rep.ob('¬' + CHECK in lits, 'check-writes:' + e['f'], 'format --check can modify the file system with %s; path: {%s}' % (e['f'], g), e['site'])
                rep.ob(FLOAD in lits, 'unloaded:' + e['f'], 'format writes before all schemas are loaded; path: {%s}' % g, e['site'])
                rep.ob(e['f'] == 'fs::write' and args == (PATH, TEXT), 'target:' + e['f'],
                       'format writes %s to %s instead of the rendering of a schema to its own path' % (args[1:], args[:1]), e['site'])
                rep.ob('¬' + CMP in lits or '¬' + CMP2 in lits, 'rewrites:' + e['f'], 'format rewrites a file that is already formatted; path: {%s}' % g, e['site'])
                rep.ob(not any(mutated(a) for a in e['rargs']), 'modified:' + e['f'], 'the schema set is modified before formatting', e['site'])
        if e['f'] == 'process::exit':
            for cj in e['guard']:
                lits = c.conj(cj)
                if mode(lits) != 'format' or FLOAD not in lits or impossible(cj, {('mon',) + k: v for k, v in e['mon'].items()}):
                    continue
                g = '; '.join(sorted(lits))[:700]
                failed = any(s.startswith('write(' + PATH) and s.endswith(') is Err') for s in lits)
                rep.ob(failed or (e['mon'].get(('mm',)) == T and (CHECK in lits or e['mon'].get(('mc',)) == T)), 'spurious-failure',
                       'format fails although no mismatch was found in check mode and no write failed; path: {%s}' % g, e['site'])
                rep.ob(args != ('0',), 'exit-code', 'format reports failure with exit code 0', e['site'])
    rep.ob(writes > 0, 'anchor:write', 'format never writes')
    oks = 0
    for st, rv in rets:
        for cj in st.guard:
            lits = c.conj(cj)
            if mode(lits) != 'format' or impossible(cj, st.store):
                continue
            oks += 1
            g = '; '.join(sorted(lits))[:700]
            mm = st.store.get(('mon', 'mm'))
            rep.ob(mm == F or '¬' + CHECK in lits or st.store.get(('mon', 'mw')) == T, 'unreported', 'format --check can succeed although a mismatch was seen; path: {%s}' % g)
            rep.ob(FLOAD in lits, 'unloaded:exit', 'format can succeed without loading; path: {%s}' % g)
            rep.ob(FS in {c(s) for s in exhausted(cj)}, 'partial', 'format can succeed without visiting every loaded schema; path: {%s}' % g)
    rep.ob(oks > 0, 'anchor:success', 'format cannot succeed')
