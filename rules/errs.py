"""Error discipline of one function: an error that was recorded or received reaches the caller."""
from spec import *


def discipline(rep, prog, name, extra=(), minus=(), need_vec=True):
    an, rets = analyze(rep, prog, name, extra=extra, minus=minus, track_results=True)
    if an is None:
        return None, []
    c = Canon()
    for e in an.events:
        if e['kind'] == 'lost_result':
            rep.fail('lost:%s:%s' % (name, fname(e['res'])), 'in %s the error of %s is dropped: an iteration goes on without '
                     'recording it' % (name, c(e['res'])), e['site'])
    vecs = 0
    for st, rv in rets:
        ok = is_t(rv, 'agg') and rv[2] in ('Ok', 'Err')
        rep.ob(ok, 'result:' + name, '%s returns a value whose outcome is not decided: %s' % (name, c(rv)[:300]))
        if not ok:
            continue
        guard = '; '.join(sorted(next(iter(c.dnf(st.guard)), ())))[:700]
        for k, v in st.store.items():
            if k[0] != 'mon':
                continue
            if k[1] == 'ne':
                vecs += 1
                if rv[2] == 'Ok':
                    rep.ob(v == ('const', False), 'ok-with-errors:' + name,
                           '%s can return Ok although an error was recorded; path: {%s}' % (name, guard))
                elif v == ('const', True):
                    rep.ob(contains(strip(rv), lambda x: x == strip(k[2])), 'err-without-errors:' + name,
                           '%s can return Err without the recorded errors; path: {%s}' % (name, guard))
                elif v == ('const', False):
                    if contains(strip(rv), lambda x: x == strip(k[2])):
                        rep.fail('empty-err:' + name, '%s can return Err with an empty error list; path: {%s}' % (name, guard))
            if k[1] == 'res' and v == ('const', False):
                rep.ob(contains(strip(rv), lambda x: x == k[2] or is_t(x, 'vf') and x[1] == k[2] and x[2] == 'Err'),
                       'lost:%s:%s' % (name, fname(k[2])), 'in %s the error of %s does not reach the caller; path: {%s}' % (name, c(k[2])[:300], guard))
    if need_vec:
        rep.ob(vecs > 0, 'anchor:errors:' + name, '%s has no error list' % name)
    return an, rets


def fname(t):
    return t[1] if t[0] in ('call', 'callm') else t[0]
