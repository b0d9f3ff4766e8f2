"""Every failure reaches the user: reported on stderr and turned into a nonzero exit status, and only failures do."""
from cli import *
from errs import discipline

EXPLANATION = ('Error-discipline dataflow with one ghost per fallible call (results carrying an I/O error or the program\'s own '
               'error type): on every path the call is either known to have succeeded or its error is recorded in an error list, '
               'returned, or printed to stderr before exiting. Applied to the program inlined from main, the loader, the validator, '
               'the tokenizer and the parser; also: exits carry a nonzero constant and are reached only with a failure in hand, and '
               'merging keeps every error.')
FLOORS = {'obligations': 60, 'functions': 10}


def check(prog, rep):
    m = Cli(prog, rep, track_results=True)
    c = m.c
    for e in m.events:
        if e['kind'] == 'lost_result':
            rep.fail('lost:main:' + fn(e['res']), 'the error of %s is dropped' % c(e['res'])[:300], e['site'])
    exits, told = 0, None
    for e in m.calls('process::exit', 'process::abort'):
        exits += 1
        rep.ob(e['args'] and is_t(e['args'][0], 'const') and e['args'][0][1] not in (0,), 'exit-code',
               'the program exits with status %s after a failure' % (e['cargs'],), e['site'])
        for k, v in e['mon'].items():
            if k[0] == 'res':
                rep.ob(v != ('const', False), 'unreported:' + fn(k[1]), 'the program exits without printing the error of %s' % c(k[1])[:300], e['site'])
        for cj, lits in m.conjs(e):
            failed = any(x.endswith(' is Err') for x in lits) or CHECK in lits or any('shell-completion-shell' in x and x.startswith('¬') for x in lits)
            if not failed and mode(lits) == 'format' and FLOAD in lits:
                # not told by the conditions alone: a difference was found earlier, in check mode
                if told is None:
                    import c02
                    sub = Report('C02')
                    c02.check(prog, sub)
                    told = not any(k.startswith(('spurious-failure', 'analysis', 'anchor', 'uncompared')) for k in sub.findings)
                failed = told
            rep.ob(failed, 'spurious-exit', 'the program fails without an error in hand; path: {%s}' % '; '.join(sorted(lits))[:700], e['site'])
    for st, rv in m.rets:
        for k, v in st.store.items():
            if k[:2] == ('mon', 'res') and v == ('const', False):
                rep.ob(contains(strip(rv), lambda x: x == k[2] or is_t(x, 'vf') and x[1] == k[2] and x[2] == 'Err'),
                       'dropped:' + fn(k[2]), 'the program can succeed although %s failed or was never checked' % c(k[2])[:300])
        for cj in st.guard:
            lits = c.conj(cj)
            bad = [x for x in lits if x.endswith(' is Err')]
            rep.ob(not bad or not is_t(rv, 'tuple'), 'success-after-failure', 'the program can succeed after a failure: %s' % bad[:2])
    # every report of an error goes to stderr
    errs = 0
    for e in m.events:
        if e['kind'] == 'call' and e['f'] in ('io::_print', 'io::_eprint'):
            for a in e['args']:
                iserr = contains(a, lambda x: is_t(x, 'call') and x[1] in ('error::throw', 'error_merger::merge_errors') or is_t(x, 'agg') and x[1] == 'error::Error')
                if iserr:
                    errs += 1
                    rep.ob(e['f'] == 'io::_eprint', 'stdout-error', 'an error is printed to stdout', e['site'])
    rep.ob(exits > 0 or any(is_t(rv, 'agg') for _, rv in m.rets), 'anchor:exit', 'main never exits with a failure status')
    rep.ob(errs > 0 or any(is_t(rv, 'agg') for _, rv in m.rets), 'anchor:report', 'main never prints an error')
    # an unknown shell is a failure; the merged error is built from the whole list
    for e in m.calls('error_merger::merge_errors'):
        ok = all(re.fullmatch(r'(load_schemas|validate)\(.*\)\.Err', a) for a in e['cargs'])
        rep.ob(ok, 'partial-report', 'only %s of the error list is reported' % (e['cargs'],), e['site'])
    for name in ('schema_loader::load_schemas', 'validator::validate', 'tokenizer::tokenize'):
        discipline(rep, prog, name)
    merge(prog, rep)


def fn(t):
    return t[1] if t[0] in ('call', 'callm') else t[0]


def merge(prog, rep):
    """merge_errors renders every error of the list it is given; an error shows its message, location and cause"""
    an, rets = analyze(rep, prog, 'error_merger::merge_errors')
    if an is not None:
        c = Canon()
        whole = []      # constructs that render every element

        def folded(t):
            """a fold over exactly the given list whose accumulator keeps everything: each step contains acc and the element"""
            for x in walk(strip(t)):
                if is_t(x, 'iter') and x[1] == 'fold' and c(x[2]) == 'arg0':
                    body = x[3]
                    if body and all('elem(arg0)' in c(b) and contains(b, lambda y: is_t(y, 'acc')) for b in body):
                        return True
                if is_t(x, 'iter') and x[1] in ('map', 'flat_map') and c(x[2]) == 'arg0' and x[3] and all('elem(arg0)' in c(b) for b in x[3]):
                    return True
            return False
        def item(t):
            return 'elem(arg0)' in c(t)
        per = [e for e in an.events if e['kind'] in ('write', 'call') and e['loops'] and
               (e['kind'] == 'write' and any(p[0] == 'a' and item(p[2]) for p in e['pieces']) or
                e['kind'] == 'call' and e['f'] == 'String::push_str' and any('elem(arg0)' in c(a) for a in e['args']))]
        groups = set()
        for e in per:
            for cj in e['guard']:
                groups.add(frozenset(x for x in c.conj(cj) if 'elem(arg0)' in x or 'pos' in x))
        uncond = per and all(not g for g in groups)
        for st, rv in rets:
            msg = dict(rv[3]).get('message') if is_t(rv, 'agg') and rv[1] == 'error::Error' else None
            done = any(c(x) == 'arg0' for cj in st.guard for x in exhausted(cj)) and all('arg0' in {c(x) for x in exhausted(cj)} for cj in st.guard)
            rep.ob(msg is not None and (folded(msg) or bool(uncond) and done), 'merge',
                   'the combined report is not built from every error of the list: %s' % c(rv)[:300])
    an, rets = analyze(rep, prog, 'error::throw', build_strings=True)
    if an is not None:
        c = Canon()
        for st, rv in rets:
            d = dict(rv[3]) if is_t(rv, 'agg') and rv[1] == 'error::Error' else {}
            msg, reason = c(d.get('message', ())), c(d.get('reason', ()))
            for cj in st.guard:
                lits = c.conj(cj)
                rep.ob('{arg0}' in msg, 'throw:message', 'an error does not show its message: %s' % msg[:200])
                if 'arg1 is Some' in lits:
                    rep.ob('arg1.Some' in msg, 'throw:path', 'an error does not show the file it is about: %s' % msg[:200])
                if 'arg2 is Some' in lits and not any(x.startswith('len(arg2.Some) in [0,0]') or x == 'is_empty(arg2.Some)' for x in lits):
                    rep.ob('arg2.Some' in msg, 'throw:listing', 'an error does not show the source excerpt: %s' % msg[:200])
                if 'arg3 is Some' in lits or 'arg3 is None' not in lits:
                    rep.ob('arg3' in reason, 'throw:reason', 'an error does not keep the underlying cause: %s' % reason[:200])
    an, rets = analyze(rep, prog, '<error::Error as std::fmt::Display>::fmt')
    if an is not None:
        c = Canon()
        with_reason = set()
        for e in an.events:
            if e['kind'] == 'write':
                t = c(('fmt', e['pieces']))
                for cj in e['guard']:
                    with_reason.add(('arg0.message' in t, 'arg0.reason' in t, tuple(sorted(c.conj(cj)))))
        msgs = {g for a, b, g in with_reason if a}
        reasons = {g for a, b, g in with_reason if b}
        rep.ob(() in msgs or {('arg0.reason is Some',), ('arg0.reason is None',)} <= msgs or
               msgs and all(all('reason' in x for x in g) for g in msgs) and len(msgs) >= 2, 'show:message', 'an error is displayed without its message: %s' % sorted(msgs))
        rep.ob(('arg0.reason is Some',) in reasons or () in reasons, 'show:reason', 'an error is displayed without its cause: %s' % sorted(reasons))
