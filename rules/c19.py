from genset import *

EXPLANATION = ('The text of the generators, derived from the tables of their writes as for C21, for every reserved word of Rust and TypeScript, every global of JavaScript and every word the generators compare names with, '
               'as the name of a module, an import, a declaration and a field at once. Rule: the text is the text for an ordinary name up to a consistent, injective renaming of tokens into legal names; no namespace '
               'has the name of a global the generated code uses; no Rust module has the name of something the paths of the generated code begin with.')
FLOORS = {'obligations': 150, 'functions': 15}


def modules(n, k, got, rep):
    """no module hides the beginning of a path"""
    base = n.base
    for i, (a, b) in enumerate(zip(base, got)):
        if b == k.snake and a == b and got[i + 1:i + 2] == ['::'] and got[i - 1] != '::':
            return True
        if b == k.snake and a == b and got[i + 1:i + 4] == ['::', '{', 'self']:
            return True
    return False


def check(prog, rep):
    for lang in LANGS:
        if not prog.has(MOD[lang] + '::generate'):
            rep.fail('anchor:' + lang, 'the function %s::generate does not exist' % MOD[lang])
            continue
        d = Derived(prog, rep, lang)
        try:
            n = Names(d)
            for _, s in sets():
                d.text(s)
        except Unknown as x:
            rep.fail('unknown:%s' % lang, 'what the %s generator writes is not known: %s' % (lang, x))
            continue
        for k in n.all():
            try:
                ps = n.problems(k)
            except Unknown as x:
                rep.fail('unknown:%s' % lang, 'what the %s generator writes for the name %s is not known: %s' % (lang, k, x))
                continue
            rep.ob(not ps, '%s:%s' % (lang, k.snake), '%s: with the name %s, %s' % (lang, k.snake, '; '.join(w for _, w in ps)), sample=len(k.snake) < 5)
        if lang == 'rust':
            for k in map(Name, RUST_CRATES):
                rep.ob(not modules(n, k, tokens(d.text(schemas_name(k))), rep), 'rust-module:' + k.snake, 'rust: a module named %s hides what paths of the generated code begin with' % k.snake)
        covered(d, rep, 'schemas and names')
