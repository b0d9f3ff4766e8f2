"""Formatting keeps the schema: the rows of what the schema printer writes, read back by the documented grammar, give the schema again."""
import itertools
from spec import *
from emit import Emission, Eval, Unknown

EXPLANATION = ('Extraction of the table of writes of the schema printer (loop heads, conditions, pieces of text) from the dataflow facts; for every class of schema the '
               'conditions tell apart, the text the table gives is read back by the documented lexical rules and grammar and compared with the schema; every row of the '
               'table has to occur, and nothing but the schema may decide what is written.')
FLOORS = {'obligations': 1500, 'functions': 3}
KW = ['asymmetric', 'as', 'Bool', 'Bytes', 'choice', 'deleted', 'F64', 'import', 'optional', 'S64', 'String', 'struct', 'U64', 'Unit']
PRIMS = ['Bool', 'Bytes', 'F64', 'S64', 'String', 'U64', 'Unit']
SCHEMA, TYPE = '<schema::Schema as std::fmt::Display>::fmt', '<schema::Type as std::fmt::Display>::fmt'


class Name:
    def __init__(self, snake, pascal=None):
        self.snake = snake
        self.pascal = pascal or ''.join(w[:1].upper() + w[1:] for w in snake.split('_'))

        self.camel = snake.split('_')[0] + self.pascal[len(snake.split('_')[0]):]

    def __eq__(self, o):
        return isinstance(o, Name) and self.snake == o.snake

    def __hash__(self):
        return hash(self.snake)

    def __repr__(self):
        return self.snake


class PathV:
    def __init__(self, text, stem):
        self.text, self.stem = text, stem


class Lines(list):
    pass


def halves(par):
    return [h for w in par.split(' ') for h in (w[:1], w[1:])]


STR = re.compile(r"^(&('\w+ )?(mut )?)*(str|String|std::string::String|std::borrow::Cow<'?\w*,? ?str>)$")


def strfn(prog, n):
    """a helper from text to text or to a truth value (the test for keywords, the sigil): its table is taken by itself"""
    raw = prog.raw.get(n)
    if not raw or '{closure' in n or raw['nargs'] != 1 or n.startswith('<'):
        return False
    ls = [str(x) for x in raw['locals'][:2]]
    return bool(STR.match(ls[1])) and (ls[0] == 'bool' or bool(STR.match(ls[0])))


class World:
    def __init__(self, types, prog, rep):
        self.types, self.prog, self.rep = types, prog, rep
        self.fns = {}

    def strcall(self, f, x):
        if f not in self.fns:
            an = Analyzer(self.prog, opaque=lambda n: n != f and strfn(self.prog, n), errty='-', inline=None)
            an.build_strings = True
            try:
                self.fns[f] = [(cj, rv) for st, rv in an.analyze(f) for cj in st.guard]
                self.rep.used(an)
            except (Fail, RecursionError):
                self.fns[f] = []
        got = set()
        ev = Eval(self.types, {0: x}, self)
        for cj, rv in self.fns[f]:
            if all(ev.lit(a, v) for a, v in cj):
                got.add(ev.ev(rv))
        if len(got) != 1:
            raise Unknown('the value of %s(%r)' % (f, x))
        return next(iter(got))

    def same(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Name) and isinstance(y, str):
                raise Unknown('a name is compared with text')
        if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ('enum',):
            return a[1] == b[1] and set(a[2]) == set(b[2]) and all(self.same(a[2][k], b[2][k]) for k in a[2])
        if type(a) is not type(b):
            raise Unknown('unlike things are compared')
        return a == b

    def show(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, int) and not isinstance(x, bool):
            return str(x)
        if isinstance(x, PathV):
            return x.text
        if isinstance(x, dict) and x.get('__ty') == 'type':
            return Eval(self.types, {0: x}, self).text()
        raise Unknown('%r is written' % (x,))

    def call(self, f, args, ev, t):
        n = f.split('::')[-1].rstrip('>')
        x = args[0] if args else None
        if strfn(self.prog, f) and isinstance(x, str):
            return self.strcall(f, x)
        if f.startswith('identifier::Identifier::') and isinstance(x, Name):
            if n in ('snake_case', 'pascal_case'):
                return getattr(x, n.split('_')[0])
            raise Unknown('a name is written by ' + n)
        if f.startswith('textwrap::') or 'Options::' in f:
            if n in ('fill', 'wrap') and isinstance(x, str) and len(args) == 2:
                return Lines(x.split(' ') if args[1] == ('opts', True, True, True) else halves(x))
            if n == 'new' and isinstance(x, int):
                return ('opts', False, False, False)
            if isinstance(x, tuple) and x[0] == 'opts' and len(args) == 2:
                v = args[1]
                if n == 'break_words' and isinstance(v, bool):
                    return ('opts', not v) + x[2:]
                if n in ('word_separator', 'word_splitter') and is_t(t[2][1], 'agg'):
                    k = t[2][1][2]
                    return x[:2] + (k == 'AsciiSpace',) + x[3:] if n == 'word_separator' else x[:3] + (k == 'NoHyphenation',)
        if n == 'lines':
            if isinstance(x, Lines):
                return list(x)
            if isinstance(x, str):
                return x.split('\n')
        if n == 'file_stem' and isinstance(x, PathV):
            return ('enum', 'Some', {'0': ('stem', x.stem)}) if x.stem else ('enum', 'None', {})
        if n in ('to_string_lossy', 'to_owned', 'to_string', 'clone', 'as_str', 'as_ref', 'deref', 'borrow', 'into_owned', 'display', 'to_str', 'as_path', 'as_os_str') and len(args) == 1:
            return ('enum', 'Some', {'0': x}) if n == 'to_str' else x
        if (f.startswith('into:identifier::Identifier') or f.endswith('::from') and 'identifier::Identifier' in f) and isinstance(x, tuple) and x[0] == 'stem':
            return x[1]
        if f.startswith('into:') and isinstance(x, str):
            return x
        if n == 'char_to_string' and isinstance(x, str):
            return x
        if n in ('join', 'concat') and isinstance(x, list) and all(isinstance(y, str) for y in x):
            return (args[1] if n == 'join' else '').join(x)
        raise Unknown(ev.em.c(t))


# ------------------------------------------------------------------ the documented rules, for text
class Bad(Exception):
    pass


def lex(s):
    toks, i = [], 0
    while i < len(s):
        ch, a = s[i], i
        if ch in ':.={}[]':
            toks.append((ch, None, a, i + 1))
            i += 1
        elif ch.isalpha() or ch in '_$':
            i += 1
            while i < len(s) and (s[i].isalnum() or s[i] == '_'):
                i += 1
            w = s[a:i]
            if w[0] == '$':
                w = w[1:]
                if not w:
                    raise Bad('empty name')
                toks.append(('name', w, a, i))
            else:
                toks.append(('kw', w, a, i) if w in KW else ('name', w, a, i))
        elif ch.isdigit():
            while i < len(s) and s[i].isdigit():
                i += 1
            toks.append(('int', int(s[a:i]), a, i))
        elif ch == "'":
            i = s.find("'", i + 1)
            if i < 0:
                raise Bad('open path')
            i += 1
            toks.append(('path', s[a + 1:i - 1], a, i))
        elif ch == '#':
            lines, end = [], i
            while True:
                e = s.find('\n', i)
                e = len(s) if e < 0 else e
                lines.append(s[i + 1:e].strip())
                end = e
                j = min(e + 1, len(s))
                while j < len(s) and s[j].isspace() and s[j] != '\n':
                    j += 1
                i = j
                if j >= len(s) or s[j] != '#':
                    break
            pars, cur = [], ''
            for ln in lines:
                if not ln and cur:
                    pars.append(cur)
                    cur = ''
                elif ln:
                    cur = (cur + ' ' if cur else '') + ln
            if cur:
                pars.append(cur)
            toks.append(('comment', pars, a, end))
        elif ch.isspace():
            i += 1
        else:
            raise Bad('unexpected %r' % ch)
    return toks


class Parse:
    def __init__(self, s):
        self.t, self.i = lex(s), 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None, 0, 0)

    def is_(self, kind, val=None):
        p = self.peek()
        return p[0] == kind and (val is None or p[1] == val)

    def take(self, kind, val=None):
        p = self.peek()
        if not self.is_(kind, val):
            raise Bad('%r where %s is expected' % (p[:2], val or kind))
        self.i += 1
        return p[1]

    def schema(self):
        com = []
        if self.is_('comment'):
            nx = self.peek(1)
            if not (nx[:2] in (('kw', 'struct'), ('kw', 'choice')) and self.peek()[3] + 1 >= nx[2]):
                com = self.take('comment')
        imps = {}
        while self.is_('kw', 'import'):
            self.i += 1
            p = self.take('path')
            if self.is_('kw', 'as'):
                self.i += 1
                a = ('alias', self.take('name'))
            else:
                a = ('stem', p)
            if a in imps:
                raise Bad('an import twice')
            imps[a] = p
        decls = []
        while self.i < len(self.t):
            c = self.take('comment') if self.is_('comment') else []
            k = self.take('kw')
            if k not in ('struct', 'choice'):
                raise Bad('declaration expected')
            name = self.take('name')
            self.take('{')
            fields, deleted = [], None
            while not self.is_('}'):
                if self.is_('kw', 'deleted'):
                    if deleted is not None:
                        raise Bad('deleted twice')
                    self.i += 1
                    deleted = []
                    while self.is_('int'):
                        deleted.append(self.take('int'))
                    continue
                fields.append(self.field())
            self.i += 1
            decls.append((k, tuple(c), name, tuple(fields), tuple(deleted or ())))
        return tuple(com), imps, decls

    def field(self):
        c = self.take('comment') if self.is_('comment') else []
        rule = 'required'
        if self.peek()[0] == 'kw' and self.peek()[1] in ('asymmetric', 'optional'):
            rule = self.take('kw')
        name = self.take('name')
        ty = ('prim', 'Unit')
        if self.is_(':'):
            self.i += 1
            ty = self.type()
        self.take('=')
        return rule, tuple(c), name, ty, self.take('int')

    def type(self):
        if self.is_('['):
            self.i += 1
            t = ('array', self.type())
            self.take(']')
            return t
        if self.peek()[0] == 'kw' and self.peek()[1] in PRIMS:
            return ('prim', self.take('kw'))
        n = self.take('name')
        if self.is_('.'):
            self.i += 1
            return ('custom', n, self.take('name'))
        return ('custom', None, n)


# ------------------------------------------------------------------ abstract schemas
def ty(x):
    if x[0] == 'prim':
        v = ('enum', x[1], {})
    elif x[0] == 'array':
        v = ('enum', 'Array', {'0': ty(x[1])})
    else:
        v = ('enum', 'Custom', {'0': ('enum', 'None', {}) if x[1] is None else ('enum', 'Some', {'0': x[1]}), '1': x[2]})
    return {'__ty': 'type', 'variant': v}


def ty_text(x):
    return x if x[0] == 'prim' else ('array', ty_text(x[1])) if x[0] == 'array' else ('custom', x[1] and x[1].snake, x[2].pascal)


def schema(com, imps, decls):
    return {'comment': list(com), 'imports': {'__map': [(a, {'path': p, 'namespace': ('enum', 'None', {})}) for a, p in imps]},
            'declarations': [{'comment': list(c), 'variant': ('enum', v, {}), 'name': n, 'deleted': list(dl),
                              'fields': [{'comment': list(fc), 'rule': ('enum', r, {}), 'name': fn, 'type': ty(t), 'index': i} for fc, r, fn, t, i in fs]}
                             for v, c, n, fs, dl in decls]}


def expected(com, imps, decls):
    im = {}
    for a, p in imps:
        im[('stem', p.text) if p.stem == a else ('alias', a.snake)] = p.text
    return tuple(com), im, [(v.lower(), tuple(c), n.pascal, tuple((r.lower(), tuple(fc), fn.snake, ty_text(t), i) for fc, r, fn, t, i in fs), tuple(dl)) for v, c, n, fs, dl in decls]


NAMES = [Name('foo_bar', 'FooBar')] + [Name(k.lower(), k[:1].upper() + k[1:]) for k in KW]
CS = [(), ('Aa Bb',), ('Cc', 'Dd Ee Ff')]
OTHER = [Name('x'), Name('import')]


def types():
    out = [('prim', p) for p in PRIMS]
    out += [('custom', None, n) for n in NAMES] + [('custom', i, n) for i in NAMES for n in (NAMES if i in NAMES[:2] else NAMES[:3])]
    return out + [('array', t) for t in out[:12]] + [('array', ('array', ('prim', 'Unit'))), ('array', ('custom', Name('m'), Name('string', 'String')))]


def cases():
    F0 = ((), 'Required', Name('f'), ('prim', 'Bool'), 3)
    D0 = ('Struct', (), Name('d'), (), ())
    P = [(Name('alpha'), PathV('alpha.t', Name('alpha'))), (Name('beta_x'), PathV('../b/other.t', Name('other'))), (Name('import'), PathV('import.t', Name('import'))),
         (Name('struct'), PathV('x y/z.t', Name('z'))), (Name('q'), PathV('..', None))] + [(n, PathV('zz%d.t' % i, Name('zz%d' % i))) for i, n in enumerate(NAMES[1:])]
    few = P[:5]
    # the whole schema
    for com in CS:
        for k in range(4):
            for imps in itertools.product(few, repeat=min(k, 2)):
                imps = imps if k < 3 else imps + (P[1],)
                if len({a for a, p in imps}) != len(imps):
                    continue
                for ds in [()] + [(('Choice', c, Name('d'), f, ()),) for c in CS for f in ((), (F0,))]:
                    yield com, imps, ds
    for p in P:
        yield (), (p,), ()
    # declarations one after the other
    shapes = [(v, c, Name('dd'), fs, dl) for v in ('Struct', 'Choice') for c in CS for fs, dl in (((), ()), ((F0,), ()), ((), (1,)), ((F0,), (0, 2)))]
    for a in shapes:
        for b in shapes:
            yield (), (), (a, b)
    for a in shapes[:12:2]:
        for b in shapes[::3]:
            for c in shapes[::4]:
                yield CS[1], (P[0],), (a, b, c)
    for n in NAMES:
        for v in ('Struct', 'Choice'):
            yield (), (), ((v, (), n, (), ()),)
    # one field
    for r in ('Required', 'Optional', 'Asymmetric'):
        for t in types():
            for c in CS[:2]:
                for n in OTHER:
                    yield (), (), (('Struct', (), Name('d'), ((c, r, n, t, 9),), ()),)
        for n in NAMES:
            for t in (('prim', 'Unit'), ('prim', 'U64'), ('custom', None, Name('string', 'String')), ('array', ('prim', 'Bool'))):
                for c in CS:
                    for i in (0, 1, 2 ** 62 - 1):
                        yield (), (), (('Choice', (), Name('d'), ((c, r, n, t, i),), (5,)),)
    # any field after any field, in any declaration
    kinds = [('prim', p) for p in PRIMS] + [('custom', None, Name('t')), ('custom', Name('m'), Name('t')), ('array', ('prim', 'Bool'))]
    for first, imps in ((True, ()), (False, ()), (True, (P[0],)), (False, (P[0],))):
        ds = () if first else (D0,)
        for prev in (None, (), ('Pp',)):
            before = () if prev is None else ((prev, 'Required', Name('p'), ('prim', 'Bool'), 0),)
            for r in ('Required', 'Optional', 'Asymmetric'):
                for t in kinds:
                    for c in CS:
                        for dl in ((), (8,)):
                            for n in OTHER[:1 if t[0] == 'prim' else 2]:
                                yield (), imps, ds + (('Struct', (), Name('d'), before + ((c, r, n, t, 1),), dl),)
    # several fields
    fs = [(c, r, Name('g'), t, 1) for c in CS for r in ('Required', 'Asymmetric') for t in (('prim', 'Unit'), ('prim', 'String'))]
    for a in fs:
        for b in fs:
            for dl in ((), (4,), (4, 5, 6)):
                yield (), (), (('Struct', (), Name('d'), (a, b), dl),)
    for t3 in itertools.product(fs[::2], repeat=3):
        yield (), (), (('Struct', (), Name('d'), t3, ()),)
    for imps in ((), (P[0],)):
        for n in NAMES[:3]:
            for v in ('Struct', 'Choice'):
                for c in CS:
                    for k in range(3):
                        for fs in ((), (F0,)):
                            yield (), imps, (D0,) * k + ((v, c, n, fs, (1, 2)), (v, c, n, fs, ()), D0)
    for c4 in itertools.product(CS[:2], repeat=5):
        yield (), (), (('Struct', (), Name('d'), tuple((c, 'Optional', Name('h'), ('prim', 'S64'), i) for i, c in enumerate(c4)), (7, 8, 9, 10, 11)),)


def describe(com, imps, decls):
    out = []
    if com:
        out.append('a comment at the top')
    for a, p in imps:
        out.append("import '%s' as %s" % (p.text, a))
    for v, c, n, fs, dl in decls:
        out.append('%s%s %s {%s%s}' % ('commented ' if c else '', v.lower(), n, '; '.join('%s%s %s: %s' % ('commented ' if f[0] else '', f[1].lower(), f[2], ty_text(f[3])) for f in fs),
                                       '; deleted' if dl else ''))
    return ', '.join(out)[:200] or 'the empty schema'


def check(prog, rep):
    opq = opaque(minus=[SCHEMA, TYPE])
    em = Emission(prog, rep, SCHEMA, lambda n: n == TYPE or opq(n) or strfn(prog, n), dst=1)
    # the printer of types calls itself for the elements of arrays
    et = Emission(prog, rep, TYPE, lambda n: n == TYPE or opq(n) or strfn(prog, n), dst=1)
    if not (em.ok and et.ok):
        return
    w = World(et, prog, rep)
    for cs in cases():
        try:
            text = Eval(em, {0: schema(*cs)}, w).text()
        except Unknown as x:
            rep.fail('depends:' + str(x)[:80], 'what is written for %s depends on something else than the schema, or in a way that is not modelled: %s' % (describe(*cs), x))
            if len(rep.findings) > 6:
                return
            continue
        want = expected(*cs)
        try:
            got = Parse(text).schema()
        except Bad as x:
            rep.ob(False, 'reads', 'the text written for %s does not parse (%s): %r' % (describe(*cs), x, text[:160]), sample=False)
            continue
        for what, a, b in (('comment', got[0], want[0]), ('imports', got[1], want[1])):
            rep.ob(a == b, 'keeps:' + what, 'formatting %s changes the %s: %r' % (describe(*cs), what, text[:160]), sample=False)
        parts = list(itertools.zip_longest(got[2], want[2]))
        for g, x in parts:
            if g is None or x is None:
                rep.ob(False, 'keeps:declarations', 'formatting %s loses or adds a declaration: %r' % (describe(*cs), text[:160]))
                continue
            for what, a, b in zip(('kind', 'comments of declarations', 'names of declarations', 'fields', 'deleted indices'), g, x):
                rep.ob(a == b, 'keeps:' + what, 'formatting %s changes the %s: %r' % (describe(*cs), what, text[:160]), sample=False)
    for e in (em, et):
        rep.obligations += len(e.used)
        rep.discharged += len(e.used)
        for at, (lits, out, d, st) in e.unused():
            t = [p[1] if p[0] == 's' else '<%s>' % e.c(p[2])[-40:] for p in out]
            rep.fail('row:%s' % ''.join(t)[:80], 'the text %r is written in a situation no kind of schema accounts for: %s' % (
                ''.join(t)[:100], ', '.join('%s in %s' % (e.c(e.atoms[k][1])[-50:], sorted(map(str, v))[:2]) for k, v in lits if not is_t(e.atoms[k][1], 'next'))[:300]))
