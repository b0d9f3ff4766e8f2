#!/usr/bin/env python3
"""Behaviour-preserving rewrites made mechanically, at every site of a file at once (sites that do not compile are dropped),
on which every check has to stay quiet.  usage: auto.py [-f file] [-t transform] [-c IDS] [-1: one site at a time]"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
FILES = ['count', 'error', 'error_merger', 'format', 'generate_rust', 'generate_typescript', 'identifier', 'main', 'parser', 'schema',
         'schema_loader', 'token', 'tokenizer', 'validator']
ANCH = {}
for line in open(VERIF + '/properties.jsonl'):
    j = json.loads(line)
    ANCH[j['id']] = j['anchors']['files']


def indent(l):
    return len(l) - len(l.lstrip(' '))


def block_end(ls, i):
    """the line closing the block opened at the end of line i"""
    n = indent(ls[i])
    for k in range(i + 1, len(ls)):
        if ls[k].strip() and indent(ls[k]) <= n:
            return k
    return None


def in_raw(ls):
    """lines within multi-line string literals"""
    out = set()
    raw = None
    for i, l in enumerate(ls):
        if raw:
            out.add(i)
            if raw in l:
                raw = None
            continue
        m = re.search(r'r(#*)"', l)
        if m and l.count('"' + m.group(1)) < (2 if m.group(1) else 2) and not l.rstrip().endswith(','):
            raw = '"' + m.group(1)
            continue
        s = re.sub(r'//.*', '', l) if '"' not in l else l
        s = re.sub(r"'(\\.|[^\\'])'", '', s)
        s = re.sub(r'\\.', '', s)
        if s.count('"') % 2:
            raw = '"'
    return out


# a transform yields edits (first line, last line exclusive, new lines)

def neg_if(ls, raw):
    for i, l in enumerate(ls):
        if i in raw:
            continue
        m = re.match(r'^(\s*)((?:let \w+ = |return )?)if (?!let )(.*) \{$', l)
        if not m:
            continue
        k = block_end(ls, i)
        if k is None or ls[k] != m.group(1) + '} else {':
            continue
        e = block_end(ls, k)
        if e is None or not re.match(r'^\s*\}[;,]?$', ls[e]):
            continue
        yield i, e + 1, [m.group(1) + m.group(2) + 'if !(' + m.group(3) + ') {'] + ls[k + 1:e] + [ls[k]] + ls[i + 1:k] + [ls[e]]


def for_while(ls, raw):
    for i, l in enumerate(ls):
        m = re.match(r'^(\s*)for (.*?) in (.*) \{$', l)
        if i in raw or not m:
            continue
        n = 'it_%d' % i
        e = block_end(ls, i)
        yield i, e + 1, [m.group(1) + '{ let mut %s = (%s).into_iter();' % (n, m.group(3)), m.group(1) + 'while let Some(%s) = %s.next() {' % (m.group(2), n)] + ls[i + 1:e] + [m.group(1) + '} }']


def for_each_try(ls, raw):
    for i, l in enumerate(ls):
        m = re.match(r'^(\s*)for (.*?) in (.*) \{$', l)
        if i in raw or not m:
            continue
        e = block_end(ls, i)
        body = ls[i + 1:e]
        if any(re.search(r'\b(break|continue|return)\b|\?;', b) for b in body):
            if any(re.search(r'\b(break|continue|return)\b', b) for b in body):
                continue
            yield i, e + 1, [m.group(1) + '(%s).into_iter().try_for_each(|%s| {' % (m.group(3), m.group(2))] + body + [m.group(1) + 'Ok(())', m.group(1) + '})?;']
        else:
            yield i, e + 1, [m.group(1) + '(%s).into_iter().for_each(|%s| {' % (m.group(3), m.group(2))] + body + [m.group(1) + '});']


def try_match(ls, raw):
    for i, l in enumerate(ls):
        m = re.match(r'^(\s*)([a-z_]+!?\(.*\))\?;$', l)
        if i in raw or not m:
            continue
        yield i, i + 1, [m.group(1) + 'match ' + m.group(2) + ' {', m.group(1) + '    Ok(()) => {}', m.group(1) + '    Err(error) => return Err(error),', m.group(1) + '}']


def try_iflet(ls, raw):
    for i, l in enumerate(ls):
        m = re.match(r'^(\s*)([a-z_]+!?\(.*\))\?;$', l)
        if i in raw or not m:
            continue
        yield i, i + 1, [m.group(1) + 'if let Err(error) = ' + m.group(2) + ' {', m.group(1) + '    return Err(error);', m.group(1) + '}']


def write_str(ls, raw):
    for i, l in enumerate(ls):
        m = re.match(r'^(\s*)write(ln)?!\((\w+), "((?:[^"\\{}]|\\.|\{\{|\}\})*)"\)(.*)$', l)
        if i in raw or not m:
            continue
        s = m.group(4).replace('{{', '{').replace('}}', '}') + ('\\n' if m.group(2) else '')
        yield i, i + 1, [m.group(1) + '%s.write_str("%s")%s' % (m.group(3), s, m.group(5))]


def writeln_write(ls, raw):
    for i, l in enumerate(ls):
        m = re.match(r'^(\s*)writeln!\((\w+), "(.*)"(.*)\)(\??;?)$', l)
        if i in raw or not m:
            continue
        yield i, i + 1, [m.group(1) + 'write!(%s, "%s\\n"%s)%s' % (m.group(2), m.group(3), m.group(4), m.group(5))]


def ret(ls, raw):
    for i, l in enumerate(ls):
        if i in raw or not re.match(r'^    Ok\(.*\)$', l) or i + 1 >= len(ls) or ls[i + 1] != '}':
            continue
        yield i, i + 1, ['    return ' + l.strip() + ';']


def and_nest(ls, raw):
    for i, l in enumerate(ls):
        m = re.match(r'^(\s*)if (?!let )([^|]*) \{$', l)
        if i in raw or not m or ' && ' not in m.group(2) or 'let ' in m.group(2):
            continue
        e = block_end(ls, i)
        if ls[e] != m.group(1) + '}':
            continue
        a, b = m.group(2).split(' && ', 1)
        if a.count('(') != a.count(')'):
            continue
        yield i, e + 1, [m.group(1) + 'if %s { if %s {' % (a, b)] + ls[i + 1:e] + [m.group(1) + '} }']


def iflet_match(ls, raw):
    for i, l in enumerate(ls):
        m = re.match(r'^(\s*)((?:let \w+ = |return )?)if let (.*?) = (.*) \{$', l)
        if i in raw or not m or ' && ' in m.group(4) or m.group(1).endswith('else '):
            continue
        k = block_end(ls, i)
        if k is None:
            continue
        if ls[k] == m.group(1) + '} else {':
            e = block_end(ls, k)
            if e is None or not re.match(r'^\s*\}[;,]?$', ls[e]):
                continue
            yield i, e + 1, [m.group(1) + m.group(2) + 'match %s {' % m.group(4), m.group(1) + m.group(3) + ' => {'] + ls[i + 1:k] + [m.group(1) + '}', m.group(1) + '_ => {'] + ls[k + 1:e] + [m.group(1) + '} ' + ls[e].strip()]
        elif ls[k] == m.group(1) + '}':
            yield i, k + 1, [m.group(1) + m.group(2) + 'match %s {' % m.group(4), m.group(1) + m.group(3) + ' => {'] + ls[i + 1:k] + [m.group(1) + '}', m.group(1) + '_ => {}', m.group(1) + '}']


def arms(ls, i, e):
    n = indent(ls[i]) + 4
    out, cur = [], []
    for k in range(i + 1, e):
        cur.append(ls[k])
        if indent(ls[k]) == n and ls[k].strip() and re.search(r'(,|^\s*\})$', ls[k]) and not ls[k].strip().startswith('//'):
            out.append(cur)
            cur = []
    return None if cur else out


def match_reverse(ls, raw):
    for i, l in enumerate(ls):
        if i in raw or not re.match(r'^.*\bmatch .* \{$', l):
            continue
        e = block_end(ls, i)
        if e is None or any(k in raw for k in range(i, e)):
            continue
        a = arms(ls, i, e)
        if not a or len(a) < 2:
            continue
        n = indent(l) + 4
        heads = [x for y in a for x in y if indent(x) == n]
        if any(re.search(r'^\s*(_|\w+|Some\(\w+\)|Ok\(\w+\)|Err\(\w+\)|\(.*\))( if .*)? =>', h) and not re.search(r'^\s*(None|Some\(\w+\)|Ok\(\w+\)|Err\(\w+\)) =>', h) or ' if ' in h.split('=>')[0] for h in heads):
            continue
        yield i, e + 1, [l] + [x for y in reversed(a) for x in y] + [ls[e]]


def match_hoist(ls, raw):
    for i, l in enumerate(ls):
        m = re.match(r'^(\s*)match (.*) \{$', l)
        if i in raw or not m:
            continue
        e = block_end(ls, i)
        yield i, e + 1, [m.group(1) + '{ let scrutinee = %s;' % m.group(2), m.group(1) + 'match scrutinee {'] + ls[i + 1:e] + [ls[e] + ' }']


def if_hoist(ls, raw):
    for i, l in enumerate(ls):
        m = re.match(r'^(\s*)if (?!let )(.*) \{$', l)
        if i in raw or not m or 'let ' in l:
            continue
        e = block_end(ls, i)
        if ls[e] != m.group(1) + '}' and ls[e] != m.group(1) + '} else {':
            continue
        yield i, i + 1, [m.group(1) + 'let condition_%d = %s;' % (i, m.group(2)), m.group(1) + 'if condition_%d {' % i]


def args_hoist(ls, raw):
    for i, l in enumerate(ls):
        m = re.match(r'^(\s*)(\w+)\((.*)\)(\??;)$', l)
        if i in raw or not m or '|' in m.group(3):
            continue
        out, depth, cur = [], 0, ''
        for c in m.group(3):
            if c in '([{<':
                depth += 1
            if c in ')]}>':
                depth -= 1
            if c == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += c
        if cur.strip():
            out.append(cur.strip())
        new, args = [], []
        for q, a in enumerate(out):
            if re.match(r'^\w+$', a):
                args.append(a)
            else:
                new.append(m.group(1) + 'let argument_%d_%d = %s;' % (i, q, a))
                args.append('argument_%d_%d' % (i, q))
        if new:
            yield i, i + 1, new + [m.group(1) + m.group(2) + '(' + ', '.join(args) + ')' + m.group(4)]


def functions(ls, raw):
    for i, l in enumerate(ls):
        if i in raw:
            continue
        m = re.match(r'^(\s*)((?:pub )?)fn (\w+)(<.*?>)?\($', l) or re.match(r'^(\s*)((?:pub )?)fn (\w+)(<.*?>)?\((.*)\)(.*) \{$', l)
        if not m:
            continue
        b = i
        while not ls[b].rstrip().endswith('{'):
            b += 1
        k = i
        if k != b and indent(ls[b]) != indent(l):
            continue
        e = block_end(ls, b)
        yield i, b, e, m


def split_fn(ls, raw):
    """f becomes a wrapper of a function that has its body"""
    for i, b, e, m in functions(ls, raw):
        sig = ' '.join(x.strip() for x in ls[i:b + 1])
        mm = re.match(r'^((?:pub )?)fn (\w+)(<.*?>)?\((.*)\)\s*(->.*)?\{$', sig)
        if not mm or indent(ls[i]) > 4:
            continue
        params = [p.strip() for p in re.sub(r'<[^<>]*(<[^<>]*>)?[^<>]*>|\([^()]*\)', lambda q: q.group(0).replace(',', '\0'), mm.group(4)).split(',') if p.strip()]
        names = []
        for p in params:
            p = p.replace('\0', ',')
            if re.match(r'^&?(mut )?self$', p):
                names.append('self')
            else:
                names.append(re.sub(r'^mut ', '', p.split(':')[0].strip()))
        if any(not re.match(r'^(\w+|r#\w+)$', n) for n in names):
            continue
        pad = ' ' * indent(ls[i])
        nm = mm.group(2) + '_body'
        if names[:1] == ['self']:
            if mm.group(2) in ('fmt', 'eq', 'hash', 'partial_cmp', 'cmp'):
                continue
            call = 'self.%s(%s)' % (nm, ', '.join(names[1:]))
        elif indent(ls[i]):
            call = 'Self::%s(%s)' % (nm, ', '.join(names))
        else:
            call = '%s(%s)' % (nm, ', '.join(names))
        outer = sig if not re.search(r'\bmut \w+:', mm.group(4)) else re.sub(r'\bmut (\w+):', r'\1:', sig)
        yield i, e + 1, [pad + outer, pad + '    ' + call, pad + '}', '', pad + re.sub(r'fn \w+', 'fn ' + nm, sig, count=1)] + ls[b + 1:e + 1]


def reverse_items(ls, raw):
    """reverse the order of the top-level functions"""
    fs = []
    for i, b, e, m in functions(ls, raw):
        if indent(ls[i]) == 0:
            s = i
            while s and re.match(r'^(//|#\[)', ls[s - 1]):
                s -= 1
            fs.append((s, e + 1))
    if len(fs) > 1:
        out = []
        pos = fs[0][0]
        new = [x for s, e in reversed(fs) for x in ls[s:e] + ['']]
        rest = []
        for s, e in fs:
            rest += ls[pos:s]
            pos = e
        yield fs[0][0], fs[-1][1], new + rest


def lits_order(ls, raw):
    """the fields of a struct literal in reverse order"""
    for i, l in enumerate(ls):
        if i in raw or not re.search(r'\b[A-Z]\w*(::\w+)? \{$', l) or re.search(r'\b(fn|impl|struct|enum|match|if|for|while|trait)\b', l) or '=>' in l:
            continue
        e = block_end(ls, i)
        if e is None or e - i < 3:
            continue
        n = indent(l) + 4
        if all(indent(x) == n and re.match(r'^\s*\w+(: [^{}]*)?,$', x) for x in ls[i + 1:e]):
            yield i + 1, e, list(reversed(ls[i + 1:e]))


def tail_var(ls, raw):
    """bind the value of a block before giving it"""
    for i, b, e, m in functions(ls, raw):
        t = ls[e - 1]
        if t.strip() and indent(t) == indent(ls[i]) + 4 and not t.rstrip().endswith((';', '}', '{')) and not re.match(r'^\s*(\)|\.|\})', t):
            yield e - 1, e, [' ' * indent(t) + 'let result = ' + t.strip() + ';', ' ' * indent(t) + 'result']


def push_extend(ls, raw):
    for i, l in enumerate(ls):
        m = re.match(r'^(\s*)(\w+)\.push\((.*)\);$', l)
        if i not in raw and m:
            yield i, i + 1, [m.group(1) + '%s.extend(std::iter::once(%s));' % (m.group(2), m.group(3))]


def incr(ls, raw):
    for i, l in enumerate(ls):
        m = re.match(r'^(\s*)(\*?\w+) \+= (.*);$', l)
        if i not in raw and m:
            yield i, i + 1, [m.group(1) + '%s = %s + %s;' % (m.group(2), m.group(2), m.group(3))]


def eq_match(ls, raw):
    for i, l in enumerate(ls):
        m = re.match(r'^(.*)\b([\w.]+)\.is_some\(\)(.*)$', l)
        if i not in raw and m:
            yield i, i + 1, [m.group(1) + '!%s.is_none()' % m.group(2) + m.group(3)]
        m = re.match(r'^(.*\b)([\w.]+)\.is_empty\(\)(.*)$', l)
        if i not in raw and m:
            yield i, i + 1, [m.group(1) + '(%s.len() == 0)' % m.group(2) + m.group(3)]


def clone_owned(ls, raw):
    for i, l in enumerate(ls):
        if i in raw or 'fn ' in l:
            continue
        for a, b in (('.to_owned()', '.to_string()'), ('.clone()', '.to_owned()')):
            if a in l:
                yield i, i + 1, [l.replace(a, b)]
                break


def let_type_block(ls, raw):
    """the value of a let within a block"""
    for i, l in enumerate(ls):
        m = re.match(r'^(\s*)let ((?:mut )?\w+) = ([^;{}]*);$', l)
        if i not in raw and m:
            yield i, i + 1, [m.group(1) + 'let %s = { %s };' % (m.group(2), m.group(3))]


def closure(ls, raw):
    """a call statement made through a closure"""
    for i, l in enumerate(ls):
        m = re.match(r'^(\s*)(write\w*!?\(.*\))\?;$', l)
        if i in raw or not m:
            continue
        yield i, i + 1, [m.group(1) + '(|| %s)()?;' % m.group(2)]


def merge_writes(ls, raw):
    i = 0
    while i < len(ls):
        m = re.match(r'^(\s*)(write|writeln)!\((\w+), "((?:[^"\\]|\\.)*)"\)\?;$', ls[i])
        m2 = i + 1 < len(ls) and re.match(r'^(\s*)(write|writeln)!\((\w+), "((?:[^"\\]|\\.)*)"\)\?;$', ls[i + 1])
        if i not in raw and m and m2:
            t = m.group(4) + ('\\n' if m.group(2) == 'writeln' else '') + m2.group(4) + ('\\n' if m2.group(2) == 'writeln' else '')
            yield i, i + 2, [m.group(1) + 'write!(%s, "%s")?;' % (m.group(3), t)]
            i += 1
        i += 1


TRANSFORMS = {f.__name__: f for f in (neg_if, for_while, for_each_try, try_match, try_iflet, write_str, writeln_write, ret, and_nest, iflet_match,
              match_reverse, match_hoist, if_hoist, args_hoist, split_fn, reverse_items, lits_order, tail_var, push_extend, incr, eq_match,
              clone_owned, let_type_block, closure, merge_writes)}


def body(text):
    k = text.find('\n#[cfg(test)]')
    return (text, '') if k < 0 else (text[:k + 1], text[k + 1:])


def apply(text, edits):
    head, tail = body(text)
    ls = head.split('\n')
    spans = []
    out = []
    pos = 0
    for a, b, new in edits:
        out += ls[pos:a]
        spans.append((len(out) + 1, len(out) + len(new)))
        out += new
        pos = b
    out += ls[pos:]
    return '\n'.join(out) + tail, spans


def disjoint(edits, seed):
    """a set of edits that do not overlap; nested ones are chosen at random"""
    r = random.Random(seed)
    es = list(edits)
    r.shuffle(es)
    out = []
    for e in es:
        if all(e[1] <= o[0] or e[0] >= o[1] for o in out):
            out.append(e)
    return sorted(out, key=lambda e: e[0])


def compile_(d, target):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true')
    r = subprocess.run(['cargo', 'check', '--offline', '--message-format', 'json'], cwd=d, env=env, capture_output=True, text=True)
    if r.returncode == 0:
        return None
    lines = []
    for l in r.stdout.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        mm = j.get('message')
        if mm and mm.get('level') in ('error', 'warning'):
            for s in mm['spans']:
                lines.append((s['file_name'], s['line_start'], s['line_end']))
    return lines or [('?', 0, 0)]


def variant(d, f, t, seed, target):
    p = d + '/src/%s.rs' % f
    text = open(p).read()
    head, tail = body(text)
    ls = head.split('\n')
    edits = disjoint(TRANSFORMS[t](ls, in_raw(ls)), seed)
    for _ in range(25):
        if not edits:
            break
        new, spans = apply(text, edits)
        open(p, 'w').write(new)
        err = compile_(d, target)
        if err is None:
            return edits
        bad = {k for k, (a, b) in enumerate(spans) if any(fn.endswith(f + '.rs') and not (e < a or s > b) for fn, s, e in err)}
        if not bad:
            # a site spoils another place: halve
            bad = set(range(len(edits) // 2, len(edits))) or {0}
        edits = [e for k, e in enumerate(edits) if k not in bad]
    open(p, 'w').write(text)
    return []


def main():
    args = sys.argv[1:]
    get = lambda o: args[args.index(o) + 1].split(',') if o in args else None
    files, trans, only = get('-f') or FILES, get('-t') or list(TRANSFORMS), get('-c')
    seeds = [int(x) for x in get('-s') or ['1']]
    allids = sorted(f[:-3].upper() for f in os.listdir(VERIF + '/rules') if f[0] == 'c' and f[1:3].isdigit())
    scratch = '/tmp/auto-scratch-%d' % os.getpid()
    os.makedirs(scratch)
    import queue
    slots = queue.Queue()
    for q in range(8):
        slots.put(q)

    def one(job):
        f, t, seed = job
        q = slots.get()
        d = '%s/%s-%s-%d' % (scratch, f, t, seed)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('target', '.git', 'node_modules'))
        try:
            edits = variant(d, f, t, seed, '%s/target%d' % (scratch, q))
            if not edits:
                return job, 0, {}
            fired = {}
            env = dict(os.environ, VERIF_REPO=d, VERIF_TIER='quick', VERIF_SCRATCH=d + '/.verif')
            for p in only or [p for p in allids if 'src/%s.rs' % f in ANCH.get(p, ['src/%s.rs' % f])]:
                r = subprocess.run([sys.executable, VERIF + '/check.py', p], env=env, capture_output=True, text=True)
                if r.returncode:
                    fired[p] = r.stdout[:700] + r.stderr[-500:]
            if fired:
                shutil.copy(d + '/src/%s.rs' % f, '/tmp/auto-%s-%s-%d.rs' % (f, t, seed))
            return job, len(edits), fired
        finally:
            shutil.rmtree(d)
            slots.put(q)

    bad = 0
    jobs = [(f, t, s) for f in files for t in trans for s in seeds]
    with ThreadPoolExecutor(7) as ex:
        for (f, t, s), n, fired in ex.map(one, jobs):
            if not n:
                continue
            print('BAD ' if fired else 'ok  ', f, t, s, 'sites', n, 'fired', sorted(fired), flush=True)
            for p, o in fired.items():
                bad += 1
                print('      ', p, o.replace('\n', '\n        ')[:900], flush=True)
    shutil.rmtree(scratch, ignore_errors=True)
    print('bad:', bad)
    return bad


if __name__ == '__main__':
    sys.exit(1 if main() else 0)
