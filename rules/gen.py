"""The code generators as tables: every local function of a generator is taken by itself (what it writes, what it returns), and the text
for an abstract schema is put together from the tables."""
from spec import *
from emit import Emission, Eval, Unknown
from c16 import Name

WTY = re.compile(r"^&('\w+ )?mut ([A-Z]\w*|impl .*Write.*|dyn .*Write.*|std::string::String|std::fmt::Formatter.*)$")


def freeze(x):
    if isinstance(x, dict):
        return ('{',) + tuple((k, freeze(v)) for k, v in sorted(x.items()))
    if isinstance(x, (list, tuple)):
        return ('[' if isinstance(x, list) else '(',) + tuple(freeze(v) for v in x)
    if isinstance(x, Name):
        return ('name', x.snake, x.pascal)
    return (type(x).__name__, str(x) if isinstance(x, Unknown) else x)


class Gen:
    """the tables of one generator"""

    def __init__(self, prog, rep, mod):
        self.prog, self.rep, self.mod = prog, rep, mod
        self.tables, self.depth, self.memo = {}, 0, {}

    def plain(self, n):
        """a function that can be taken by itself"""
        raw = self.prog.raw.get(n)
        return raw is not None and '{closure' not in n and not any('Fn(' in str(x) or 'FnMut(' in str(x) or 'FnOnce(' in str(x) for x in raw['locals'][1:raw['nargs'] + 1])

    def writer(self, n):
        raw = self.prog.raw.get(n)
        if raw is None or not self.plain(n):
            return None
        for i in range(raw['nargs']):
            if WTY.match(str(raw['locals'][i + 1])):
                return i
        return None

    def mutator(self, n):
        """the parameter a function changes"""
        raw = self.prog.raw.get(n)
        if raw is None or not self.plain(n) or self.writer(n) is not None:
            return None
        ks = [i for i in range(raw['nargs']) if re.match(r"^&('\w+ )?mut ", str(raw['locals'][i + 1]))]
        return ks[0] if len(ks) == 1 else None

    def table(self, n):
        if n not in self.tables:
            self.tables[n] = Emission(self.prog, self.rep, n, lambda m: self.plain(m) or m.startswith('<'), writer=self.writer, mutator=self.mutator)
        return self.tables[n]

    def never(self, n, variant):
        """does the function never return the variant"""
        em = self.tables.get(n)
        rvs = [st.store.get(('mon', 'rv')) for rows in em.rows.values() for lits, out, d, st in rows if d[0] == 'ret'] if em is not None and em.ok else [None]
        return all(is_t(v, 'agg') and v[2] != variant for v in rvs)

    # ---- the world of the evaluator
    def once(f):
        """the same arguments, the same result"""
        def g(self, n, args):
            k = (f.__name__, n, freeze(args))
            if k not in self.memo:
                self.memo[k] = f(self, n, args)
            return self.memo[k]
        return g

    @once
    def write(self, n, args):
        em = self.table(n)
        if not em.ok:
            raise Unknown('what %s writes' % n)
        self.depth += 1
        if self.depth > 60:
            raise Unknown('endless recursion in ' + n)
        try:
            return Eval(em, dict(enumerate(args)), self).text()
        finally:
            self.depth -= 1

    def same(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ('enum',):
            return a[1] == b[1] and set(a[2]) == set(b[2]) and all(self.same(a[2][k], b[2][k]) for k in a[2])
        if type(a) is not type(b):
            raise Unknown('unlike things are compared')
        return a == b

    def show(self, x):
        if isinstance(x, bool):
            return 'true' if x else 'false'
        if isinstance(x, (str, int)):
            return str(x)
        raise Unknown('%r is written' % (x,))

    def call(self, f, args, ev, t):
        n = f.split('::')[-1].rstrip('>')
        x = args[0] if args else None
        if isinstance(x, Name) and f.startswith('identifier::Identifier::'):
            if n in ('snake_case', 'pascal_case', 'camel_case'):
                return getattr(x, n.split('_')[0])
            if n == 'join' and len(args) == 2 and isinstance(args[1], Name):
                return Name(x.snake + '_' + args[1].snake, x.pascal + args[1].pascal)
        if f.startswith('into:identifier::Identifier') and isinstance(x, str):
            return Name(x.lower(), x)
        if f in self.prog.raw and self.plain(f) and not f.startswith('identifier::'):
            return self.value(f, args)
        if n in ('clone', 'as_str', 'as_ref', 'deref', 'borrow', 'to_owned', 'to_string') and len(args) == 1:
            return x
        if isinstance(x, list) and x and all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], Name) for y in x):
            x = {'__map': sorted(x, key=lambda kv: self.order(kv[0]))}  # pairs collected
        if n == 'get' and isinstance(x, list) and len(args) == 2 and isinstance(args[1], int):
            return ('enum', 'Some', {'0': x[args[1]]}) if 0 <= args[1] < len(x) else ('enum', 'None', {})
        if n in ('first', 'last', 'split_first', 'split_last') and isinstance(x, list) and len(args) == 1:
            if not x:
                return ('enum', 'None', {})
            v = x[0] if n.endswith('first') else x[-1]
            return ('enum', 'Some', {'0': v if n in ('first', 'last') else (v, x[1:] if n == 'split_first' else x[:-1])})
        if n == 'repeat' and len(args) == 2 and isinstance(x, str) and isinstance(args[1], int):
            return x * args[1]
        if n in ('min', 'max') and len(args) == 2 and all(isinstance(y, int) and not isinstance(y, bool) for y in args):
            return min(args) if n == 'min' else max(args)
        if n in ('concat', 'to_vec', 'into_boxed_slice') and len(args) == 1 and isinstance(x, list):
            return x if n != 'concat' else ''.join(x) if all(isinstance(y, str) for y in x) else [z for y in x for z in y]
        if n == 'contains' and isinstance(x, list) and len(args) == 2:
            return any(self.same(y, args[1]) for y in x)
        if n == 'contains_key' and isinstance(x, dict) and '__map' in x:
            return any(self.same(k, args[1]) for k, v in x['__map'])
        if n in ('starts_with', 'ends_with') and isinstance(x, str) and isinstance(args[1], str):
            return x.startswith(args[1]) if n == 'starts_with' else x.endswith(args[1])
        if n == 'starts_with' and isinstance(x, list) and isinstance(args[1], list):
            return len(args[1]) <= len(x) and all(self.same(a, b) for a, b in zip(x, args[1]))
        if n == 'binary_search' and isinstance(x, list) and len(args) == 2 and isinstance(args[1], str) and x == sorted(x, key=lambda y: y.encode()):
            return ('enum', 'Ok', {'0': x.index(args[1])}) if args[1] in x else ('enum', 'Err', {'0': 0})
        if n in ('get', 'remove', 'get_mut') and isinstance(x, dict) and '__map' in x:
            hit = [v for k, v in x['__map'] if self.same(k, args[1])]
            return ('enum', 'Some', {'0': hit[0]}) if hit else ('enum', 'None', {})
        if n == 'join' and isinstance(x, list):
            return args[1].join(x)
        raise Unknown('%s(%s)' % (n, ', '.join(map(ev.em.c, t[2]))))

    @once
    def value(self, n, args):
        em = self.table(n)
        if not em.ok:
            raise Unknown('the value of ' + n)
        self.depth += 1
        if self.depth > 60:
            raise Unknown('endless recursion in ' + n)
        try:
            e = Eval(em, dict(enumerate(args)), self, wants=True)
            e.text()
            return e.rv
        finally:
            self.depth -= 1

    @once
    def effect(self, f, args):
        k = self.mutator(f) if f in self.prog.raw else None
        if k is None:
            raise Unknown('the effect of ' + f)
        em = self.table(f)
        if not em.ok:
            raise Unknown('the effect of ' + f)
        self.depth += 1
        if self.depth > 60:
            raise Unknown('endless recursion in ' + f)
        try:
            e = Eval(em, dict(enumerate(args)), self, changes=k)
            e.text()
            return e.after
        finally:
            self.depth -= 1

    def order(self, k):
        return k.snake if isinstance(k, Name) else [x.snake for x in k['components']] if isinstance(k, dict) else k
