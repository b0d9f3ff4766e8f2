"""Schemas as inputs of the generators (native terms and the evaluator's values), the text derived for them from the tables, and the
items of that text."""
from spec import *
from emit import Unknown
from c16 import Name
from gen import Gen
from ref_rust import Field, Decl, Schema

TOKEN = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|("(?:[^"\\]|\\.)*")|('(?:[^'\\\n]|\\.)*')(?!\w)|('\w+)|((?:r\#)?[\w$][\w$]*)|(::|->|=>|==|!=|<=|\+=|&&|\|\||\.\.=?|.)""", re.S)
OPEN, CLOSE = '({[', ')}]'
VERSION = '1.2.3'


def tokens(text):
    return [m.group() for m in TOKEN.finditer(text) if m.lastindex]


def some(x):
    return ('enum', 'None', {}) if x is None else ('enum', 'Some', {'0': x})


def ty(t):
    return {'variant': ('enum', t[1], {}) if t[0] == 'prim' else ('enum', 'Array', {'0': ty(t[1])}) if t[0] == 'array' else ('enum', 'Custom', {'0': some(t[1]), '1': t[2]})}


def value(schemas, version=VERSION):
    """the arguments of generate"""
    m = []
    for s in sorted(schemas, key=lambda s: [n.snake for n in s.ns]):
        m.append(({'components': list(s.ns)}, ({
            'comment': [], 'imports': {'__map': [(a, {'path': None, 'namespace': some({'components': list(n)})}) for a, n in s.imports]},
            'declarations': [{'variant': ('enum', d.kind, {}), 'name': d.name, 'comment': [], 'deleted': [], 'fields': [
                {'name': f.name, 'type': ty(f.type), 'rule': ('enum', f.rule, {}), 'index': f.index, 'comment': []} for f in d.fields]} for d in s.decls]}, None, '')))
    return [version, {'__map': m}]


def items(toks, modules):
    """[(path, heading, body)] of a text: heading up to the brace or the end, body the tokens inside; modules: a heading that holds items"""
    out, i = [], 0

    def go(i, path, end):
        while i < len(toks) and toks[i] != '}':
            start, depth = i, 0
            while i < len(toks) and not (depth == 0 and toks[i] in '{;='):
                depth += (toks[i] in OPEN) - (toks[i] in CLOSE)
                if depth < 0:
                    raise Unknown('unbalanced text')
                i += 1
            head = tuple(toks[start:i])
            if i == len(toks):
                raise Unknown('an item without an end: ' + ' '.join(head)[:60])
            m = modules(head)
            if m is not None and toks[i] == '{':
                i = go(i + 1, path + (m,), True)
                out.append((path, head, None))
                continue
            a = i
            while True:
                depth += (toks[i] in OPEN) - (toks[i] in CLOSE)
                i += 1
                if depth == 0 and (toks[i - 1] == ';' or toks[i - 1] == '}' and toks[a] == '{'):
                    break
                if i == len(toks):
                    raise Unknown('unbalanced text')
            out.append((path, head, tuple(toks[a:i])))
        if end != (i < len(toks)):
            raise Unknown('unbalanced text')
        return i + 1
    go(0, (), False)
    return out
