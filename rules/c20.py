"""C20: no source of nondeterminism reaches the output."""
import json
import re

EXPLANATION = ('Every call, function value, cast and type of every function of the program, from the compiler\'s MIR. Rule: nothing but the file system, the arguments and the compiled-in version is consulted (no clock, environment, '
               'randomness, threads, addresses); whatever iterates over a hash table flows only into consumers that do not depend on the order; what the generators and the formatter print is computed without input or output and without '
               'anything that depends on the terminal.')
FLOORS = {'obligations': 4000, 'functions': 100}

# what may differ from one run to the next
DENY = re.compile(r'^(std::(time|env|thread|net|random|os)::|core::time::|std::process::(id|Command|Child)|std::sync::(mpsc|Mutex|RwLock|Condvar|Barrier|atomic)|std::fs::(read_dir|metadata|symlink_metadata|DirEntry|ReadDir|Metadata)'
                  r'|std::io::(stdin|Stdin|IsTerminal|copy)|std::hash::(RandomState|BuildHasher|random)|std::collections::hash_map::(RandomState|DefaultHasher)|core::fmt::rt::Argument::<.*>::new_pointer'
                  r'|textwrap::(termwidth|Options::<.*>::with_termwidth)|std::path::Path::(read_dir|metadata|symlink_metadata)|std::arch::|core::arch::|std::intrinsics::|std::ptr::(addr|hash|eq|addr_eq)$)')
DENYTRAIT = re.compile(r'std::time::|IsTerminal|std::thread::|BuildHasher')
CRATES = {'alloc', 'core', 'std', 'clap', 'colored', 'pad', 'textwrap', 'unicode_segmentation', 'typical', 'compiler_builtins'}
PURE = {'alloc', 'core', 'std', 'pad', 'textwrap', 'unicode_segmentation', 'typical', 'compiler_builtins'}
IO = re.compile(r'^std::(fs|io|env|net|process|time|thread)::')
PATHIO = re.compile(r'^std::path::Path::(canonicalize|exists|try_exists|is_file|is_dir|is_symlink|read_link|read_dir|metadata|symlink_metadata)')
HASHITER = re.compile(r'\bhash_(map|set)::(?!Entry|OccupiedEntry|VacantEntry|HashMap|HashSet|RandomState|DefaultHasher)|\bhashbrown::(map|set)::(?!HashMap|HashSet)')
HASH = re.compile(r'\bHash(Map|Set)<')
LAZY = re.compile(r'\bstd::iter::(FlatMap|Flatten|Chain|Zip)<')
# consumers of an iterator whose result does not depend on the order of the elements
INSENSITIVE = {'any', 'all', 'count', 'len', 'sum', 'product', 'max', 'min', 'size_hint', 'is_empty', 'drop', 'drop_in_place', 'clone', 'fmt_size', 'by_ref', 'is_subset', 'is_superset', 'is_disjoint', 'contains'}
COLLECT = {'collect', 'from_iter', 'extend'}
ORDERED = re.compile(r'^(&mut |&)*(std::collections::)?(BTreeMap|BTreeSet|HashMap|HashSet|BinaryHeap|std::collections::\w+)<')
SORT = re.compile(r'::(sort|sort_unstable)$')


def text(ty):
    return ty if isinstance(ty, str) else json.dumps(ty)


def carries(ty):
    """does iterating a value of this type visit a hash table in its order?"""
    ty = text(ty)
    return bool(HASHITER.search(ty) or LAZY.search(ty) and HASH.search(ty))


def fnitems(x):
    if isinstance(x, dict):
        if 'path' in x and 'krate' in x:
            yield x
        for v in x.values():
            yield from fnitems(v)
    elif isinstance(x, list):
        for v in x:
            yield from fnitems(v)


def opty(fn, a):
    """the type of an operand as far as its local gives it"""
    if 'pl' in a and not a['pl']['p']:
        return text(fn['locals'][a['pl']['l']])
    if a.get('k') == 'const':
        return text(a.get('ty', ''))
    return ''


def check(prog, rep):
    PROG[0] = prog
    fns = prog.j['fns']
    for fn in fns:
        one(fn, rep)
    pure(prog, rep)
    statics(prog, rep)


def statics(prog, rep):
    for c in prog.j['consts']:
        ty = text(c.get('ty', ''))
        rep.ob(not re.search(r'Cell<|Mutex<|Atomic|Lazy', ty), 'state:' + c['name'], 'the program keeps mutable global state (%s: %s)' % (c['name'], ty), sample=False)


def hashy(prog, ty, seen=()):
    ty = text(ty)
    if HASH.search(ty):
        return True
    for n, a in prog.adts.items():
        if n not in seen and re.search(r'(?<![\w:])%s(?![\w:])' % re.escape(n), ty):
            for v in a['variants']:
                if any(hashy(prog, f[1], seen + (n,)) for f in v[1]):
                    return True
    return False


def one(fn, rep):
    name = fn['name']
    rep.functions.add(name)
    locals_ = fn['locals']
    sorts = set()
    for b in fn['blocks']:
        t = b['term']
        if t['t'] == 'call':
            g = t['f'].get('fn')
            if g and SORT.search(g['path']):
                sorts.add('sorted')
    for b in fn['blocks']:
        if b['cleanup']:
            continue
        rep.blocks += 1
        t = b['term']
        for g in fnitems([b['st'], t]):
            if g.get('local'):
                continue
            p = g['path']
            r = g.get('resolved') or p
            bad = DENY.match(p) or DENY.match(r) or DENYTRAIT.search(p)
            rep.ob(not bad, 'source:%s:%s' % (name, p), '%s consults %s, which may differ from one run to the next' % (name, r), site=name, sample=False)
            rep.ob(g.get('krate') in CRATES, 'crate:%s:%s' % (name, g.get('krate')), '%s calls %s of a crate that is not known to be deterministic' % (name, p), site=name, sample=False)
            if 'new_debug' in p or p == 'std::fmt::Debug::fmt':
                rep.ob(not any(hashy_any(rep, a) for a in g.get('args', [])), 'debug:' + name, '%s prints a hash table in its own order' % name, site=name, sample=False)
        for s in b['st']:
            rv = s.get('rv') or {}
            if rv.get('r') == 'cast':
                k = rv['kind']
                rep.ob('PointerExposeProvenance' not in k and 'Expose' not in k, 'address:' + name, '%s turns an address into a number' % name, site=name, sample=False)
                if 'Unsize' in k:
                    src = opty(fn, rv['a'])
                    rep.ob(not carries(src), 'hash-order:%s:dyn' % name, '%s hides an iteration over a hash table (%s) behind a trait object' % (name, src), site=name, sample=False)
        if t['t'] == 'call':
            rep.events += 1
            consume(fn, t, rep, bool(sorts))
    if re.search(r'\bimpl\b', text(locals_[0])):
        rep.ob(not any(carries(x) for x in locals_), 'hash-order:%s:returned' % name, '%s returns an iterator that may visit a hash table in its order' % name, site=name)
    else:
        rep.ob(not carries(locals_[0]), 'hash-order:%s:returned' % name, '%s returns an iterator over a hash table' % name, site=name, sample=False)


PROG = [None]


def hashy_any(rep, a):
    return hashy(PROG[0], a)


def consume(fn, t, rep, sorts):
    g = t['f'].get('fn')
    name = fn['name']
    tys = [opty(fn, a) for a in t['args']]
    args = [x for x in (g or {}).get('args', []) if isinstance(x, str)]
    dest = text(t.get('destty', ''))
    path = g['path'] if g else '?'
    last = path.split('::')[-1]
    into = last in COLLECT and any(HASH.search(x) for x in args[1:])
    if not (any(carries(x) for x in tys + args) or into):
        return
    if carries(dest) and last != 'next':
        return      # an adapter: its result is followed instead
    ok = last in INSENSITIVE
    if last in COLLECT:
        target = tys[0] if last == 'extend' and tys else dest
        ok = bool(ORDERED.match(target)) or last != 'extend' and target.startswith('std::vec::Vec<') and sorts
    if last == 'into_iter' or last == 'deref' or last in ('as_ref', 'borrow'):
        ok = True
    rep.ob(ok, 'hash-order:%s:%s' % (name, last), '%s lets the order of a hash table decide: %s over %s' % (name, path, [x for x in tys + args if carries(x) or HASH.search(x)][0][:200]), site=name)


def pure(prog, rep):
    """the renderings are computed from the schemas alone"""
    PROG[0] = prog
    roots = ['generate_rust::generate', 'generate_typescript::generate', '<schema::Schema as std::fmt::Display>::fmt', 'validator::validate', 'tokenizer::tokenize', 'parser::parse']
    for r in roots:
        if not prog.has(r):
            rep.fail('anchor:' + r, 'the function %s the rule is anchored at does not exist' % r)
            continue
        render = r not in roots[3:]
        impls = {f['name']: f for f in prog.j['fns']}
        seen, work = set(), [r]
        while work:
            n = work.pop()
            if n in seen or n not in impls:
                continue
            seen.add(n)
            f = impls[n]
            for b in f['blocks']:
                if b['cleanup']:
                    continue
                t = b['term']
                for s in b['st']:
                    if (s.get('rv') or {}).get('kind') == 'closure' and s['rv']['r'] == 'agg':
                        work.append(s['rv']['closure'])
                for g in fnitems([b['st'], t]):
                    q = g.get('resolved') or g['path']
                    if q in impls:
                        work.append(q)
                    for a in g.get('args', []):
                        if not isinstance(a, str):
                            continue
                        for m in re.findall(r'[\w]+(?:::[\w]+)+', a):
                            for tr in ('std::fmt::Display', 'std::fmt::Debug') if g['krate'] in ('core', 'alloc', 'std') else ():
                                c = '<%s as %s>::fmt' % (m, tr)
                                if c in impls and ('new_display' in g['path'] or 'new_debug' in g['path'] or 'to_string' in g['path']):
                                    if ('Display' in c) != ('new_debug' in g['path']):
                                        work.append(c)
                    if g.get('local'):
                        continue
                    p = g['path']
                    bad = IO.match(p) or PATHIO.match(p)
                    rep.ob(not bad, 'effect:%s:%s' % (r, p), '%s reaches %s (in %s): its result is not a function of its arguments' % (r, p, n), site=n, sample=False)
                    if render:
                        rep.ob(g['krate'] in PURE, 'terminal:%s:%s' % (r, p), '%s reaches %s (in %s), whose result depends on the terminal or the environment' % (r, p, n), site=n, sample=False)
        rep.ob(len(seen) >= 3, 'reach:' + r, 'the analysis reaches only %d functions from %s' % (len(seen), r), sample=True)
