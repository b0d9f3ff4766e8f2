"""The text of the generators, derived from their tables for schemas of every kind, against the reference."""
from genref import *
import itertools
import ref_rust
import ref_ts

PRIMS = ('Bool', 'Bytes', 'F64', 'S64', 'String', 'U64', 'Unit')
RULES = ('Asymmetric', 'Optional', 'Required')
LANGS = ('rust', 'typescript')
MOD = {'rust': 'generate_rust', 'typescript': 'generate_typescript'}


def P(x):
    return ('prim', x)


def A(x):
    return ('array', x)


def C(i, n):
    return ('custom', i and Name(i), Name(n))


def ns(text):
    return tuple(Name(x) for x in text.split('/') if x)


def container(h):
    """headings whose bodies are items again"""
    if h[:2] == ('pub', 'mod') or h[:2] == ('export', 'namespace'):
        return h[-1]
    if h[:1] == ('impl',):
        return ' '.join(h)


def types():
    base = [P(p) for p in PRIMS] + [C(None, 'local'), C('far', 'thing')]
    return [t for b in base for t in (b, A(b), A(A(b)), A(A(A(b))))] + [A(A(A(A(A(b))))) for b in (P('U64'), P('Bytes'), C(None, 'local'))]


def schemas_types():
    """every type under every rule in every kind of declaration"""
    fs = [Field(Name('f%s' % chr(97 + i // 26) + chr(97 + i % 26)), t, r, 3 * i if i else 0) for i, (t, r) in enumerate((t, r) for t in types() for r in RULES)]
    one = Decl('Struct', Name('thing'), [Field(Name('x'), P('U64'), 'Required', 0)])
    return [Schema(ns('here/deep/down/below'), [(Name('far'), ns('far/away'))], [Decl('Struct', Name('every_struct'), fs), Decl('Choice', Name('every_choice'), fs), one._replace(name=Name('local'))]), Schema(ns('far/away'), [], [one])]


def schemas_counts():
    """declarations of 0 to 3 fields under every choice of rules, and a field of every type alone"""
    out = []
    for k in ('Struct', 'Choice'):
        for n in range(4):
            for i, rs in enumerate(itertools.product(RULES, repeat=n)):
                out.append(Decl(k, Name('%s_%s_%s' % (k.lower(), 'nosm'[n], ''.join(r[0].lower() for r in rs) or 'z')), [Field(Name('abc'[j]), P('U64' if j % 2 else 'String'), r, j) for j, r in enumerate(rs)]))
        for i, t in enumerate(types()):
            out.append(Decl(k, Name('%s_one_%s%s' % (k.lower(), chr(97 + i // 26), chr(97 + i % 26))), [Field(Name('it'), t, RULES[i % 3], 0)]))
    last = [Decl('Struct', Name('local'), []), Decl('Choice', Name('thing'), [])]
    return [Schema(ns('all'), [(Name('far'), ns('all'))], out + last)] + [Schema(ns('some%s' % 'abc'[n]), [], [Decl(k, Name('d%s' % 'xyz'[i]), []) for i, k in enumerate(ks)]) for n, ks in enumerate(
        [(), ('Struct',), ('Choice', 'Struct', 'Choice')])]


def schemas_places(paths):
    """modules that refer to each other"""
    out = []
    for p in paths:
        imp = [(Name('to_' + (q or 'top').replace('/', '_')), ns(q)) for q in paths]
        fs = [Field(Name('f_' + a.snake), ('custom', a, Name('leaf')), RULES[i % 3], i) for i, (a, q) in enumerate(imp)] + [Field(Name('own'), C(None, 'leaf'), 'Required', 90)]
        out.append(Schema(ns(p), imp, [Decl('Struct', Name('leaf'), fs), Decl('Choice', Name('node'), fs)]))
    return out


PLACES = {
    'top': [''], 'top_and': ['', 'aa'], 'one': ['solo'], 'deep': ['aa/bb/cc/dd'], 'up': ['aa', 'aa/bb', 'aa/bb/cc'], 'apart': ['aa', 'bb'], 'beside': ['aa/bb', 'aa/cc'], 'same_tail': ['aa/bb', 'bb', 'cc/bb'],
    'mixed': ['aa/bb/cc', 'aa/bb/dd/ee', 'aa/kk', 'ff', 'ff/ii/jj', 'gg/hh'],
}


def sets():
    yield 'types', schemas_types()
    yield 'counts', schemas_counts()
    yield 'none', []
    for k, v in PLACES.items():
        yield 'places:' + k, schemas_places(v)


class Derived:
    """the text a generator writes for given schemas, and its items"""

    def __init__(self, prog, rep, lang):
        self.lang, self.rep = lang, rep
        self.gen = Gen(prog, rep, MOD[lang])

    def text(self, schemas):
        t = self.gen.value(MOD[self.lang] + '::generate', value(schemas))
        if not isinstance(t, str):
            raise Unknown('what generate returns')
        return t

    def reference(self, schemas):
        """the items the schemas stand for, as text"""
        tree = {}
        for s in schemas:
            t = tree
            for n in s.ns:
                t = t.setdefault(n.snake if self.lang == 'rust' else n.pascal, {})
            t[None] = (ref_rust.Rust if self.lang == 'rust' else ref_ts.TypeScript)(s).text()

        def put(t):
            return t.get(None, '') + ' '.join('%s %s { %s }' % ('pub mod' if self.lang == 'rust' else 'export namespace', k, put(v)) for k, v in t.items() if k is not None)
        return put(tree)

    def compare(self, schemas):
        """[(path, heading, got, wanted)]: every item on either side"""
        got, want = self.table(self.text(schemas)), self.table(self.reference(schemas))
        if not schemas:
            self.preamble = got
        return [(k[0], ' '.join(k[1]), got.get(k), want.get(k)) for k in {**got, **want}]

    def table(self, text):
        out = {}
        for p, h, b in items(tokens(text), container):
            out.setdefault((p, h), []).append(b)
        return out


def where(a, b):
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return '... %s ... instead of ... %s ...' % (' '.join(a[max(0, i - 8):i + 12]), ' '.join(b[max(0, i - 8):i + 12]))


# ---- names
RUST_RESERVED = set('''as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type
unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try'''.split())
RUST_NEVER_RAW = {'self', 'Self', 'super', 'crate', '_'}
TS_RESERVED = set('''break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super
switch this throw true try typeof var void while with implements interface let package private protected public static yield await any boolean number string symbol object never
unknown undefined bigint arguments eval'''.split())
JS_GLOBALS = set('''Array ArrayBuffer BigInt BigInt64Array BigUint64Array Boolean DataView Date Error EvalError Float32Array Float64Array Function Infinity Int16Array Int32Array Int8Array JSON
Map Math NaN Number Object Promise Proxy RangeError ReferenceError Reflect RegExp Set String Symbol SyntaxError TextDecoder TextEncoder TypeError URIError Uint16Array Uint32Array Uint8Array
Uint8ClampedArray WeakMap WeakSet'''.split())
RUST_CRATES = ('std', 'core', 'alloc', 'io')


def snake(w):
    return '_'.join(x.lower() for x in re.findall(r'[A-Z]+(?![a-z])|[A-Z]?[a-z]+\d*|[A-Z]\d*|\d+', w)) or w


def name_of(w):
    s = snake(w) if w != w.lower() else w
    return Name(s, w) if w[:1].isupper() else Name(s)


def schemas_name(k):
    """the name k in every place"""
    fs = [('Struct', r, t) for r in RULES for t in (P('U64'), ('custom', k, k))] + [('Choice', r, t) for r in RULES for t in (P('String'), ('custom', k, k))]
    ds = [Decl(kind, Name('other_' + chr(97 + i)), [Field(k, t, r, 0), Field(Name('plain'), P('Bool'), r, 1)]) for i, (kind, r, t) in enumerate(fs)]
    ks = [Decl('Struct', k, [Field(k, ('custom', None, k), 'Optional', 0)])]
    kc = [Decl('Choice', k, [Field(k, A(('custom', k, k)), 'Optional', 0), Field(Name('plain'), P('Unit'), 'Required', 1)])]
    return [Schema((k,), [(k, (k, k))], kc), Schema((k, k), [], ks), Schema(ns('a'), [(k, (k,))], ds)]


PLAIN = Name('qqx', 'Qqx')


class Names:
    """names against an ordinary name"""

    def __init__(self, derived):
        self.d, self.lang = derived, derived.lang
        self.base = tokens(derived.text(schemas_name(PLAIN)))
        every = tokens(derived.text(schemas_types())) + self.base
        self.values = {b for a, b, c in zip([''] + every, every, every[1:] + ['']) if b in JS_GLOBALS and (a in ('new', 'instanceof') or c in '(.')}  # globals that are used as values

    def all(self):
        ws = set(RUST_RESERVED if self.lang == 'rust' else TS_RESERVED | JS_GLOBALS)
        for em in self.d.gen.tables.values():
            for a, t in em.atoms:
                for x in walk(t):
                    if is_t(x, 'cname') and isinstance(x[2], tuple):
                        ws |= {w for w in x[2] if isinstance(w, str)}
                    elif is_t(x, 'const') and isinstance(x[1], str):
                        ws.add(x[1])
        out = {}
        for w in ws:
            if re.fullmatch(r'[^\W\d]\w*', w):
                n = name_of(w)
                out[(n.snake, n.pascal)] = n
        return [out[k] for k in sorted(out)]

    def problems(self, k):
        """[(key, what)]: the ways the text for the name k is not the text for an ordinary name up to a renaming into legal names"""
        got, out, to = tokens(self.d.text(schemas_name(k))), [], {}
        if len(got) != len(self.base):
            return [('shape', 'the text has another shape')]
        free = {x for x in self.base if 'qqx' not in x.lower()}
        for i, (a, b) in enumerate(zip(self.base, got)):
            if a == b:
                continue
            if 'qqx' not in a.lower():
                out.append(('shape', '%s becomes %s' % (a, b)))
                continue
            if to.setdefault(a, b) != b:
                out.append(('inconsistent', '%s becomes both %s and %s' % (a, to[a], b)))
            if a[:1] in '\'"':
                if to.get(a[1:-1], b[1:-1]) != b[1:-1]:
                    out.append(('text', 'the field %s goes by %s' % (to[a[1:-1]], b)))
                continue
            bad = self.illegal(a, b, got, i)
            if bad:
                out.append(bad)
        back = {}
        for a, b in to.items():
            if back.setdefault(b, a) != a:
                out.append(('clash', '%s and %s are both %s' % (a, back[b], b)))
        return out[:3]

    def illegal(self, a, b, got, i):
        if self.lang == 'rust':
            raw = b.startswith('r#')
            w = b[2:] if raw else b
            if not re.fullmatch(r'[^\W\d]\w*', w) or w in (RUST_NEVER_RAW if raw else RUST_RESERVED):
                return 'illegal', '%s is not a name in Rust' % b
            return None
        if not re.fullmatch(r'[^\W\d][\w$]*|\$\w+', b):
            return 'illegal', '%s is not a name in TypeScript' % b
        member = got[i - 1] == '.' or got[i + 1:i + 2] == [':'] and got[i - 1] != '('
        if not member or got[i - 1] == 'namespace':
            if b in TS_RESERVED:
                return 'illegal', 'the reserved word %s is used as a name' % b
            if b in self.values:
                return 'global:' + b, 'the namespace %s hides the global of this name' % b
        return None


# ---- the obligations
def kind(lang, path, head):
    """what an item of a module is for"""
    if lang == 'rust':
        if path and path[-1].startswith('impl'):
            i = path[-1]
            if i.startswith('impl From'):
                return 'convert'
            if head.startswith('fn deserialize') or head.startswith('pub fn deserialize'):
                return 'read'
            return 'write' if 'serialize' in head.split('(')[0] else 'size'
        return 'type' if head.startswith('#') else 'other'
    if head.startswith('export type'):
        return 'type'
    if head.startswith('export function'):
        n = head.split()[2]
        return 'size' if n in ('size', 'atlas') else 'read' if n.startswith('deserialize') else 'write' if n.startswith('serialize') else 'other'
    return 'other'


def covered(d, rep, what):
    """every condition in the generator has been met by some input, or the text under it is not known"""
    for f, em in sorted(d.gen.tables.items()):
        n = len(em.atoms)
        for (a, t), v in em.unseen():
            if a == 'is' and v == frozenset(['Err']) and t[0] in ('call', 'callm') and d.gen.never(t[1], 'Err'):
                continue
            rep.fail('uncovered:%s' % f, '%s: %s writes something else under the condition %s %s, which none of the %s meets' % (d.lang, f, em.c(t)[:200], sorted(v, key=str) if isinstance(v, frozenset) else v, what))
        rep.ob(True, 'covered:' + f, '', sample=False)
        rep.notes.append('%s: %d conditions, %d rows used' % (f, n, len(em.used))) if len(rep.notes) < 80 else None


def against(prog, rep, wanted, which=None, names=True):
    """the derived text against the reference, for the items of the wanted kinds"""
    out = {}
    for lang in LANGS:
        d = out[lang] = Derived(prog, rep, lang)
        if not prog.has(MOD[lang] + '::generate'):
            rep.fail('anchor:' + lang, 'the function %s::generate does not exist' % MOD[lang])
            continue
        top = None
        for n, schemas in sets():
            try:
                rows = d.compare(schemas)
            except Unknown as x:
                rep.fail('unknown:%s:%s' % (lang, n), 'what the %s generator writes for the schemas "%s" is not known: %s' % (lang, n, x))
                continue
            if n == 'none':
                continue
            first = top is None
            if first:  # what comes before the modules is the same for all schemas
                top = {(p, h): g for p, h, g, w in rows if w is None and (p == () or len(p) == 1 and p[0].startswith('impl'))}
            if 'preamble' in wanted:
                rep.ob(len(top) > 3 and {(p, h): g for p, h, g, w in rows if (p, h) in top} == top, 'preamble:%s:%s' % (lang, n), 'the definitions the generated code depends on are not the same for the %s schemas "%s"' % (lang, n))
            if which is not None and not which(n):
                continue
            for p, h, g, w in rows:
                if (p, h) in top and w is None:
                    continue
                k = kind(lang, p, h)
                at = '::'.join(p) + ' ' + h
                if 'declared' in wanted or k in wanted:
                    if not rep.ob(bool(g) and bool(w) and len(g) == len(w), 'declared:%s:%s' % (lang, k), '%s: %s is generated %d times for the schemas "%s", where it should be %d times' % (lang, at[:160], len(g or ()), n, len(w or ())), sample=False):
                        continue
                if k in wanted and g and w:
                    rep.ob(g == w, '%s:%s' % (k, lang), '%s: in the code for the schemas "%s", %s is not what it should be: %s' % (
                        lang, n, at[:160], where(*next((a or (), b or ()) for a, b in zip(g, w) if a != b)) if g != w and len(g) == len(w) else ''), sample=k == 'type' or rep.obligations % 97 == 0)
        if names:
            cover_names(d, rep)
        covered(d, rep, 'schemas')
    return out


def cover_names(d, rep):
    """the words a generator treats specially have been met"""
    try:
        n = Names(d)
        for k in n.all():
            n.problems(k)
    except Unknown as x:
        rep.fail('unknown:%s:names' % d.lang, 'what the %s generator writes for some names is not known: %s' % (d.lang, x))
