"""C18: identifiers are compared, ordered and hashed by one and the same form."""
import re
from engine import is_t, walk, strip
from spec import Canon, analyze

EXPLANATION = ('The implementations of equality, ordering and hashing of every type of the program, and everything that makes or changes an identifier, from the compiler\'s MIR. Rule: those of an identifier compare, order and hash exactly '
               'its folded form, never the spelling; every other type either derives all of them or none by hand; an identifier is made in one place, from one text, and never changed.')
FLOORS = {'obligations': 20, 'functions': 6}
ID = 'identifier::Identifier'
EQ, PCMP, CMP, HASH = ('<%s as std::cmp::PartialEq>::eq' % ID, '<%s as std::cmp::PartialOrd>::partial_cmp' % ID, '<%s as std::cmp::Ord>::cmp' % ID, '<%s as std::hash::Hash>::hash' % ID)
FROM = '<%s as std::convert::From<&str>>::from' % ID
OWN = (EQ, PCMP, CMP, HASH, FROM, ID + '::snake_case', ID + '::original', '<%s as std::cmp::PartialEq>::ne' % ID)
TRAITS = {'std::cmp::PartialEq', 'std::cmp::PartialOrd', 'std::cmp::Ord', 'std::hash::Hash', 'std::cmp::Eq'}
VIEWS = {'as_str', 'as_bytes', 'as_ref', 'deref', 'borrow', 'clone', 'to_owned', 'as_deref'}


def leaves(t, out):
    """the fields of the arguments a term is computed from, and the functions it is computed with"""
    if is_t(t, 'f') and is_t(t[1], 'param'):
        out[0].add((t[1][1], t[2]))
        return
    if is_t(t, 'param'):
        out[0].add((t[1], '*'))
        return
    if isinstance(t, tuple):
        if t and t[0] in ('call', 'callm'):
            out[1].add(t[1].split('::')[-1])
            for x in t[2]:
                leaves(x, out)
            return
        for x in t:
            leaves(x, out)
    elif isinstance(t, (list, frozenset)):
        for x in t:
            leaves(x, out)


def facts(terms):
    out = (set(), set())
    for t in terms:
        leaves(t, out)
    return out[0], out[1] - VIEWS


def check(prog, rep):
    impls = [i for i in prog.j['impls'] if i['trait'] in TRAITS]
    by = {}
    for i in impls:
        by.setdefault(i['self'], {})[i['trait']] = i['derived']
    for s, m in sorted(by.items()):
        m = {k: v for k, v in m.items() if k != 'std::cmp::Eq'}
        if s == ID:
            continue
        rep.ob(len(set(m.values())) <= 1 and (all(m.values()) or len(m) <= 1 and 'std::cmp::PartialEq' in m),
               'mixed:' + s, 'equality, ordering and hashing of %s are not all derived, so they may disagree: %s' % (s, m), site=s)
        rep.functions.add(s)
    mine = by.get(ID, {})
    for t in sorted(TRAITS - {'std::cmp::Eq'}):
        rep.ob(t in mine, 'missing:' + t, 'identifiers do not implement %s' % t, sample=False)
        rep.ob(not mine.get(t), 'derived:' + t, 'the derived %s of identifiers takes the spelling into account' % t, sample=False)
    if any(mine.get(t, True) for t in TRAITS - {'std::cmp::Eq'}):
        return
    key = keys(prog, rep)
    if key is None:
        return
    K = {(0, key), (1, key)}
    for n, ops in ((EQ, {'eq', 'cmp', 'is_eq', 'partial_cmp'}), (PCMP, {'cmp', 'partial_cmp'}), (CMP, {'cmp', 'partial_cmp', 'unwrap'})):
        an, rets = analyze(rep, prog, n, minus=set(OWN))
        if not an:
            continue
        terms = [strip(t) for _, t in rets]
        guards = [a for st, _ in rets for cj in st.guard for a, v in cj]
        ls, fs = facts(terms + guards)
        rep.ob(ls == K, 'compares:' + n, '%s is computed from %s, not from the %s of both identifiers' % (n, sorted('%s.%s' % x for x in ls), key), site=n)
        rep.ob(fs <= ops, 'how:' + n, '%s uses %s' % (n, sorted(fs)), site=n)
    for n in ('<%s as std::cmp::PartialEq>::ne' % ID,) + tuple('<%s as std::cmp::%s' % (ID, x) for x in ('Ord>::max', 'Ord>::min', 'Ord>::clamp', 'PartialOrd>::lt', 'PartialOrd>::le', 'PartialOrd>::gt', 'PartialOrd>::ge')):
        rep.ob(not prog.has(n), 'override:' + n, '%s overrides the comparison' % n, sample=False)
    # the two orders agree: one is the other
    pair = []
    for n in (PCMP, CMP):
        an, rets = analyze(rep, prog, n, minus=set(OWN))
        pair.append(sorted(Canon()(t) for _, t in rets))
    rep.ob(pair[0] == ['Some{0:%s}' % x for x in pair[1]] or len(pair[0]) == len(pair[1]) == 1 and pair[0][0].replace('partial_cmp', 'cmp') == pair[1][0], 'orders', 'the partial order %s is not the order %s' % tuple(pair), site=PCMP)
    an, rets = analyze(rep, prog, HASH, minus=set(OWN))
    if an:
        used = []
        for e in an.events:
            if e['kind'] == 'call' and ('Hash' in str(e.get('f')) or 'Hash' in str(e.get('path'))):
                used.append(e)
        ls, fs = facts([strip(a) for e in used for a in e.get('args', ())])
        rep.ob(used and {x for x in ls if x[0] == 0} == {(0, key)}, 'hash', 'the hash of an identifier is computed from %s, not from its %s' % (sorted('%s.%s' % x for x in ls if x[0] == 0), key), site=HASH)


def keys(prog, rep):
    """the field that holds the folded form; every identifier is made by From<&str>, from one text"""
    a = prog.adts.get(ID)
    if not a:
        rep.fail('anchor:' + ID, 'there is no type ' + ID)
        return None
    for f in a['variants'][0][1]:
        rep.ob(not f[2], 'private:' + f[0], 'the field %s of identifiers can be changed from anywhere' % f[0], sample=False)
    makers = set()
    fields = {f[0] for f in a['variants'][0][1]}
    for fn in prog.j['fns']:
        for b in fn['blocks']:
            for s in b['st']:
                rv = s.get('rv') or {}
                if rv.get('r') == 'agg' and rv.get('adt') == ID and not fn['derived']:
                    makers.add(fn['name'])
                pl = s.get('pl')
                if s.get('s') == '=' and pl and pl['p']:
                    changed(fields, rep, fn, pl, 'assigns')
                if rv.get('r') == 'ref' and rv.get('mut') and rv['pl']['p']:
                    changed(fields, rep, fn, rv['pl'], 'borrows mutably')
            t = b['term']
            if t['t'] == 'call' and t.get('dest') and t['dest']['p']:
                changed(fields, rep, fn, t['dest'], 'assigns')
    callers = {}
    for f, gs in prog.calls.items():
        for g in gs:
            callers.setdefault(g, set()).add(f)
    for m in sorted(makers):
        rep.ob(m == FROM or callers.get(m, set()) <= makers | {FROM} and FROM in callers.get(m, ()), 'made:' + m, '%s makes an identifier other than from its text' % m, site=m)
    an, rets = analyze(rep, prog, FROM, minus=set(OWN))
    if not an:
        return None
    key = None
    names = [f[0] for f in a['variants'][0][1]]
    verbatim = set(names)
    for _, t in rets:
        t = strip(t)
        if not is_t(t, 'agg'):
            rep.fail('from', 'the identifier made from a text is not followed: ' + Canon()(t)[:200])
            return None
        for k, v in t[3]:
            if v != ('param', 0):
                verbatim.discard(k)
    rest = [n for n in names if n not in verbatim]
    rep.ob(len(verbatim) == 1 and len(rest) == 1, 'from:text', 'an identifier does not hold the text it was made from and one folded form of it: %s hold the text' % sorted(verbatim), site=FROM)
    if len(rest) == 1:
        key = rest[0]
    an, rets = analyze(rep, prog, ID + '::snake_case', minus=set(OWN)) if prog.has(ID + '::snake_case') else (None, ())
    for _, t in rets or ():
        rep.ob(Canon()(t) == 'arg0.%s' % key, 'snake', 'the snake-case form of an identifier is not the form it is compared by', site=ID + '::snake_case')
    an, rets = analyze(rep, prog, ID + '::original', minus=set(OWN)) if prog.has(ID + '::original') else (None, ())
    for _, t in rets or ():
        rep.ob(Canon()(t) == 'arg0.%s' % next(iter(verbatim), ''), 'original', 'the original form of an identifier is not the text it was made from', site=ID + '::original')
    return key


def changed(fields, rep, fn, pl, how):
    fs = [p[1] for p in pl['p'] if isinstance(p, list) and p[0] == 'f']
    if not fields & set(fs):
        return
    rep.ob(False, 'changed:%s' % fn['name'], '%s %s the %s of an identifier' % (fn['name'], how, fs[-1]), site=fn['name'])
