"""Shared vocabulary of the rules: canonical text of terms and literals, reports, analysis profiles."""
import re
from engine import (Analyzer, Prog, Fail, State, is_t, base, strip, walk, contains, short, dnf_simplify, INF, UNIV)

ERRTYPES = ('std::io::Error', 'error::Error', 'std::fmt::Error')


class Canon:
    """canonical text of version-stripped terms; `names` maps terms (or predicates) to short names"""

    def __init__(self, names=()):
        self.names = [(strip(k) if isinstance(k, tuple) else k, v) for k, v in names]
        self.memo = {}

    def add(self, term, name):
        self.names.append((strip(term), name))
        self.memo = {}

    def __call__(self, t):
        return self.c(strip(t))

    def c(self, t):
        if not isinstance(t, tuple) or not t:
            return repr(t)
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._c(t)
        return r

    def _c(self, t):
        for k, v in self.names:
            if (k(t) if callable(k) else k == t):
                return v
        c, k = self.c, t[0]
        if k == 'const':
            return repr(t[1])
        if k == 'param':
            return 'arg%s' % t[1]
        if k == 'f':
            return '%s.%s' % (c(t[1]), t[2])
        if k == 'vf':
            return '%s.%s%s' % (c(t[1]), t[2], '' if t[3] == '0' else '.' + t[3])
        if k in ('call', 'callm'):
            n = t[1]
            if not n.startswith('into:'):
                n = n.split(' as ')[-1] if n.startswith('<') else n
                n = n.split('::')[-1].rstrip('>')
            return '%s(%s)' % (n, ', '.join(c(x) for x in t[2]))
        if k == 'agg':
            return '%s{%s}' % (t[2], ', '.join('%s:%s' % (a, c(b)) for a, b in t[3]))
        if k == 'tuple':
            return '(%s)' % ', '.join(c(x) for x in t[1])
        if k == 'array':
            return '[%s]' % ', '.join(c(x) for x in t[1])
        if k == 'mut':
            return c(t[1])
        if k == 'elem':
            return 'elem(%s)' % c(t[1])
        if k in ('key', 'val'):
            return '%s(%s)' % (k, c(t[1]))
        if k == 'pos':
            return 'pos'
        if k == 'idx':
            return '%s[%s]' % (c(t[1]), c(t[2]))
        if k == 'slice':
            return '%s[%s]' % (c(t[1]), c(t[2]))
        if k == 'lin':
            return '(' + ' + '.join(sorted(('' if n == 1 else '%d*' % n) + c(x) for x, n in t[1])) + (' %+d' % t[2] if t[2] else '') + ')'
        if k in ('fstr', 'fmt'):
            return 'f"%s"' % ''.join(p[1] if p[0] == 's' else '{%s%s}' % (c(p[2]), '' if p[1] == 'display' else ':' + p[1]) for p in t[1])
        if k == 'new':
            return 'new ' + t[1]
        if k == 'next':
            return 'next(%s)' % c(t[1])
        if k == 'iter':
            return 'iter:%s(%s => %s)' % (t[1], c(t[2]), ' | '.join(sorted(c(x) for x in t[3])))
        if k == 'cname':
            return t[1]
        if k == 'lit':
            return '(' + self.lit(t[1], t[2]) + ')'
        if k == 'not':
            return '¬' + c(t[1])
        if k == 'phi':
            return 'phi'
        if k == 'join':
            return 'join'
        if k == 'of':
            return '%s(%s)' % (t[1].split('::')[-1], c(t[2]))
        if k == 'with':
            return '%s{%s := %s}' % (c(t[1]), '.'.join(str(x[-1]) for x in t[2]), c(t[3]))
        if k in ('fnitem',):
            return t[1]
        if k == 'closure':
            return 'closure'
        return '%s(%s)' % (k, ', '.join(c(x) for x in t[1:]))

    def lit(self, a, v):
        if a[0] == 'n':
            return '%s in %s' % (self(a[1]), ','.join('[%s,%s]' % ('-inf' if x <= -INF else x, 'inf' if y >= INF else y) for x, y in v))
        if a[0] == 'b':
            return ('' if True in v else '¬') + self(a[1])
        return '%s is %s' % (self(a[1]), '|'.join(sorted(v)))

    def conj(self, cj, drop_next=True):
        out = set()
        for a, v in cj:
            if drop_next and a[0] == 'is' and is_t(a[1], 'next'):
                continue
            out.add(self.lit(a, v))
        return frozenset(out)

    def dnf(self, g, drop_next=True):
        return frozenset(self.conj(cj, drop_next) for cj in g)

    def show(self, g):
        return ' OR '.join('{' + '; '.join(sorted(c)) + '}' for c in sorted(self.dnf(g), key=sorted))


def exhausted(cj):
    """sources of the loops a path has run to the end"""
    return {strip(a[1][1]) for a, v in cj if a[0] == 'is' and is_t(a[1], 'next') and v == frozenset(['None'])}


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.findings = {}
        self.obligations = 0
        self.discharged = 0
        self.functions = set()
        self.samples = []
        self.events = 0
        self.blocks = 0
        self.sites = set()
        self.notes = []

    def ob(self, ok, key, msg, site='', sample=True):
        """one obligation; key identifies the violated instance without line numbers"""
        self.obligations += 1
        if site:
            self.sites.add(site)
        if ok:
            self.discharged += 1
            if sample and len(self.samples) < 12:
                self.samples.append('%s%s' % (key, ' @ ' + site if site else ''))
        else:
            self.findings.setdefault(key, '%s%s' % (msg, ' [%s]' % site if site else ''))
        return ok

    def fail(self, key, msg, site=''):
        return self.ob(False, key, msg, site)

    def used(self, an):
        self.functions |= an.inlined
        self.events += len(an.events)
        self.blocks += an.nblocks
        if an.imprecise:
            self.notes.append('state limit reached %d times' % an.imprecise)


FMT = re.compile(r'^<.* as std::fmt::(Display|Debug)>::fmt$')
CORE_OPAQUE = {
    'error::throw', 'error::listing', 'error_merger::merge_errors', 'count::count',
    'schema_loader::load_schemas', 'validator::validate', 'generate_rust::generate',
    'generate_typescript::generate', 'parser::parse', 'tokenizer::tokenize',
    'identifier::Identifier::join', 'identifier::Identifier::snake_case', 'identifier::Identifier::camel_case',
    'identifier::Identifier::pascal_case', 'identifier::Identifier::original',
}


def opaque(extra=(), minus=()):
    names = (CORE_OPAQUE | set(extra)) - set(minus)

    def f(n):
        if '::{closure' in n and n.split('::{closure')[0] in minus:
            return False
        return n in names or n.endswith('code_str') or bool(FMT.match(n)) and n not in minus or n.startswith('<identifier::Identifier as ') and n not in minus
    return f


def analyze(rep, prog, name, extra=(), minus=(), **kw):
    """analyse one function with everything local inlined except the opaque set"""
    params = kw.pop('params', None)
    init = kw.pop('init', None)
    if not prog.has(name):
        rep.fail('anchor:' + name, 'the function %s the rule is anchored at does not exist' % name)
        return None, []
    built = kw.pop('build_strings', False)
    an = Analyzer(prog, opaque=opaque(extra, set(minus) | {name}), **kw)
    an.build_strings = built
    try:
        rets = an.analyze(name, params=params, init=init)
    except (Fail, RecursionError) as e:
        rep.fail('analysis:' + name, 'the analysis of %s cannot follow the code: %r' % (name, e))
        return None, []
    rep.used(an)
    return an, ends(an, rets) if name == 'main' else rets


class End:
    def __init__(self, guard, mon):
        self.guard = guard
        self.store = {('mon',) + k: v for k, v in mon.items()}


def ends(an, rets):
    """the ends of the program: leaving with status 0 is a return, returning a failure status is an exit"""
    out, evs = [], []
    for e in an.events:
        if e['kind'] == 'call' and e.get('path') == 'std::process::exit' and e['args'] == (('const', 0),):
            out.append((End(e['guard'], e['mon']), ('tuple', ())))
        else:
            evs.append(e)
    for st, rv in rets:
        v = strip(rv)
        if is_t(v, 'call') and v[1].startswith(('into:', 'From')) and len(v[2]) == 1:
            v = v[2][0]
        if v == ('const', 0):
            out.append((st, ('tuple', ())))
        elif is_t(v, 'const') and isinstance(v[1], int):
            a = (v,)
            evs.append(dict(kind='call', f='process::exit', path='std::process::exit', args=a, rargs=a, raw=a, guard=st.guard, loops=(), site='main', fn='main', fid=-1, bb=-1, stack=('main',),
                            local=False, gen=[], mon={k[1:]: x for k, x in st.store.items() if k[0] == 'mon'}))
        else:
            out.append((st, rv))
    an.events = evs
    return out


def analyze_with(rep, an, name, init=None, params=None):
    try:
        rets = an.analyze(name, params=params, init=init)
    except (Fail, RecursionError) as e:
        rep.fail('analysis:' + name, 'the analysis of %s cannot follow the code: %r' % (name, e))
        return None
    rep.used(an)
    return ends(an, rets) if name == 'main' else rets
