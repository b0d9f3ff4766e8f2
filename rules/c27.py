from genset import *

EXPLANATION = ('The texts of both generators, derived from the tables of their writes as for C21. Rule: for every declaration the two languages write the same field headers (order, index, inlining of integers) with the '
               'same fallbacks, read the same indices with the same fallbacks, and demand the same fields, and these are the ones of the schema; the code for sizes, payloads and reading is, in each language, the '
               'reference code for the one encoding.')
FLOORS = {'obligations': 2000, 'functions': 15}


def facts(lang, rows):
    """{(module, declaration): {what: sequence}}"""
    out = {}
    for p, h, g, w in rows:
        if not g or not g[0]:
            continue
        t = ' '.join(g[0])
        if lang == 'rust':
            m = p and re.match(r'impl (\w+?)(In|Out)$', p[-1])
            if not m:
                continue
            o = out.setdefault((p[:-1], m.group(1)), {})
            if 'fn serialize_with_atlas' in h:
                o['write'] = [(int(i), f == 'true', bool(b)) for i, f, b in re.findall(r'serialize_field_header \( writer , (\d+)_u64 , .*?, (true|false) \)(?:(?!serialize_field_header).)*?(fallback \. serialize|(?=(?:super :: )*serialize_field_header|$))', t)]
            if 'fn deserialize_from_reader_ref' in h:
                o['read'] = [(int(i), 'fallback' in b) for i, b in re.findall(r'(?<=[{}] )(\d+) => \{((?:(?![{}] \d+ => \{).)*)', t)]
                o['need'] = re.findall(r'_(\w+) \. is_none', t)
        else:
            n = h.split()[2] if h.startswith('export function') else ''
            if not p:
                continue
            o = out.setdefault((p[:-1], p[-1]), {}) if n in ('serializeWithAtlasUnsafe', 'deserializeUnsafe') else None
            if n == 'serializeWithAtlasUnsafe':
                o['write'] = [(int(i), f == 'true', bool(b)) for i, f, b in re.findall(r'serializeFieldHeader \( dataView , offset , (\d+)n , .*?, (true|false) \)(?:(?!serializeFieldHeader).)*?(message \. \$fallback|(?=serializeFieldHeader|$))', t)]
            if n == 'deserializeUnsafe':
                o['read'] = [(int(i), '$fallback' in b) for i, b in re.findall(r'case (\d+)n :((?:(?!case \d+n :).)*)', t)]
                o['need'] = re.findall(r'\$(\w+) == = undefined', t)
    return out



def check(prog, rep):
    ds = against(prog, rep, {'size', 'write', 'read'})
    for n, schemas in sets():
        if n == 'none':
            continue
        try:
            r, t = (facts(lang, ds[lang].compare(schemas)) for lang in LANGS)
        except Unknown as x:
            rep.fail('unknown:' + n, 'what the generators write for the schemas "%s" is not known: %s' % (n, x))
            continue
        for s in schemas:
            for d in s.decls:
                a = r.get((tuple(x.snake for x in s.ns), d.name.pascal), {})
                b = t.get((tuple(x.pascal for x in s.ns), d.name.pascal), {})
                choice = d.kind == 'Choice'
                want = {'write': [(f.index, ref_rust.integer(f.type), choice and f.rule != 'Required') for f in d.fields], 'read': [(f.index, choice and f.rule == 'Optional') for f in d.fields]}
                for k in ('write', 'read'):
                    rep.ob(a.get(k) == b.get(k) == want[k], 'agree:%s' % k, 'for %s %s, Rust code %ss %s and TypeScript code %s where the schema says %s' % (
                        d.kind.lower(), d.name, k, str(a.get(k))[:90], str(b.get(k))[:90], str(want[k])[:90]), sample=len(d.fields) == 2)
                need = [f.name for f in d.fields if f.rule == 'Required' and not choice]
                rep.ob(a.get('need') == [x.snake for x in need] and b.get('need') == [x.camel for x in need], 'agree:need', 'for %s %s, Rust code demands %s and TypeScript code %s where the schema says %s' % (
                    d.kind.lower(), d.name, a.get('need'), b.get('need'), need), sample=False)
