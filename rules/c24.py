from genset import *

EXPLANATION = ('The text of the generators, derived from the tables of their writes as for C21, for trees of modules of depth 0 to 4 that import each other in every direction, and trees in which modules and declarations '
               'share names. Rule: every path to a type in the generated code, resolved by the scoping rules of the target language over the generated modules, leads to the declaration the schema refers to, and '
               'every reference of the schema appears as such a path; for the trees without shared names the code is also the reference code.')
FLOORS = {'obligations': 500, 'functions': 15}
TY = re.compile(r'(.+?)(In|Out|Atlas)$')

SHARED = {'own_child': (['aa/aa', 'aa/bb', 'cc'], {}), 'decl_as_module': (['mm', 'nn'], {'mm': 'mm'}), 'decl_as_import': (['mm', 'bb'], {'mm': 'bb'}), 'decl_as_child': (['mm', 'mm/foo'], {'mm': 'foo'}),
          'decl_as_parent': (['mm/pp', 'pp'], {'mm/pp': 'mm'})}


def shared(paths, extra):
    out = schemas_places(paths)
    return [s._replace(decls=s.decls + [s.decls[0]._replace(name=Name(extra['/'.join(n.snake for n in s.ns)]))]) if '/'.join(n.snake for n in s.ns) in extra else s for s in out]


def chains(toks, sep):
    i = 0
    while i < len(toks):
        if re.match(r'[^\W\d]', toks[i]) and (i == 0 or toks[i - 1] != sep):
            c = [toks[i]]
            while i + 2 < len(toks) and toks[i + 1] == sep and re.match(r'[^\W\d]', toks[i + 2]):
                c.append(toks[i + 2])
                i += 2
            yield c
        i += 1


def rust(rows):
    """{(module, declaration): {(module, declaration)}}, [problems]"""
    mods, types, out, bad = set(), {}, {}, []
    for p, h, g, w in rows:
        q = tuple(x for x in p if not x.startswith('impl'))
        mods |= {q[:i] for i in range(len(q) + 1)}
        m = re.match(r'# \[.*\] pub (?:struct|enum) (\w+)', h)
        if m and g:
            types.setdefault(q, set()).add(m.group(1))
    for p, h, g, w in rows:
        q = tuple(x for x in p if not x.startswith('impl'))
        owner = re.search(r'(\w+?)(In|Out|Atlas)( \{|$)', (p[-1] if p and p[-1].startswith('impl') else h))
        if not owner or not g or not g[0]:
            continue
        for c in chains(list(g[0]) + h.split(), '::'):
            k = next((i for i, x in enumerate(c) if TY.match(x) and x[0].isupper()), None)
            if k is None:
                continue
            at = q
            for x in c[:k]:
                at = at[:-1] if x == 'super' and at else at + (x,)
            if c[k] not in types.get(at, ()) or 'super' in at:
                bad.append('%s in %s leads nowhere' % ('::'.join(c[:k + 1]), '::'.join(p)))
            else:
                out.setdefault((q, owner.group(1)), set()).add((at, TY.match(c[k]).group(1)))
    return out, bad


def typescript(rows):
    spaces, types, out, bad = {()}, {}, {}, []
    for p, h, g, w in rows:
        spaces |= {p[:i] for i in range(len(p) + 1)}
        m = re.match(r'export (type|namespace) ([\w$]+)', h)
        if m:
            (spaces.add(p + (m.group(2),)) if m.group(1) == 'namespace' else types.setdefault(p, set()).add(m.group(2)))
    for p, h, g, w in rows:
        if not g or not g[0]:
            continue
        m = re.match(r'export type ([\w$]+)', h)
        owner = (p, TY.match(m.group(1)).group(1)) if m and TY.match(m.group(1)) else (p[:-1], p[-1]) if p else None
        if owner is None or owner[1] not in {TY.match(t).group(1) for t in types.get(owner[0], ()) if TY.match(t)}:
            continue
        for c in chains(list(g[0]) + h.split(), '.'):
            if len(c) == 1 and TY.match(c[0]) and c[0][0].isupper():
                at = p
                while c[0] not in types.get(at, ()) and at:
                    at = at[:-1]
                if c[0] not in types.get(at, ()):
                    bad.append('%s in %s leads nowhere' % (c[0], '.'.join(p)))
                else:
                    out.setdefault(owner, set()).add((at, TY.match(c[0]).group(1)))
            elif len(c) > 1 and c[0][0].isupper() and c[0] not in JS_GLOBALS:
                at = p
                while at + (c[0],) not in spaces and at:
                    at = at[:-1]
                full, last = at + tuple(c[:-1]), c[-1]
                if last[0].isupper():
                    target = (full, TY.match(last).group(1)) if TY.match(last) and last in types.get(full, ()) else None
                else:
                    target = (full[:-1], full[-1]) if full in spaces and full[-1] + 'In' in types.get(full[:-1], ()) else None
                if target is None:
                    bad.append('%s in %s leads nowhere' % ('.'.join(c), '.'.join(p)))
                else:
                    out.setdefault(owner, set()).add(target)
    return out, bad


def meant(lang, schemas):
    out = {}
    for s in schemas:
        def ns(p):
            return tuple(n.snake if lang == 'rust' else n.pascal for n in p)
        imports = {a.snake: n for a, n in s.imports}
        for d in s.decls:
            to = out.setdefault((ns(s.ns), d.name.pascal), {(ns(s.ns), d.name.pascal)})
            for f in d.fields:
                t = f.type
                while t[0] == 'array':
                    t = t[1]
                if t[0] == 'custom':
                    to.add((ns(s.ns if t[1] is None else imports[t[1].snake]), t[2].pascal))
    return out


def check(prog, rep):
    for lang in LANGS:
        if not prog.has(MOD[lang] + '::generate'):
            rep.fail('anchor:' + lang, 'the function %s::generate does not exist' % MOD[lang])
            continue
        d = Derived(prog, rep, lang)
        every = [(n, s, 'hidden:same_tail' if n == 'places:same_tail' else '') for n, s in sets() ] + [('shared:' + n, shared(*x), 'hidden:' + n) for n, x in SHARED.items()]
        for n, schemas, key in every:
            try:
                rows = d.compare(schemas)
            except Unknown as x:
                rep.fail('unknown:%s:%s' % (lang, n), 'what the %s generator writes for the schemas "%s" is not known: %s' % (lang, n, x))
                continue
            if n == 'none' or n.startswith('places:top'):
                continue  # a module without a name does not arise
            got, bad = (rust if lang == 'rust' else typescript)(rows)
            want = meant(lang, schemas)
            rep.ob(not bad, '%s:%s' % (lang, key or 'path:' + n), '%s: for the schemas "%s", %s' % (lang, n, '; '.join(bad[:3])))
            for k, to in want.items():
                if not bad:
                    have = got.get(k, {k})
                    rep.ob(have == to, '%s:%s' % (lang, key or 'target:' + n), '%s: for the schemas "%s", the code for %s refers to %s instead of %s' % (
                        lang, n, '/'.join(k[0] + k[1:]), sorted(have - to)[:3] or 'less', sorted(to - have)[:3] or 'less'), sample=False)
            if n.startswith(('places', 'shared')):
                for p, h, g, w in rows:
                    if w is not None:
                        rep.ob(g == w, '%s:text:%s' % (lang, n), '%s: for the schemas "%s", %s is not what it should be: %s' % (
                            lang, n, ('::'.join(p) + ' ' + h)[:160], where((g or [()])[0] or (), w[0] or ())), sample=False)
        cover_names(d, rep)
        covered(d, rep, 'schemas')
