"""Filesystem and process footprint of the whole program."""
from cli import *
import json

EXPLANATION = ('Effect analysis over the resolved call graph: every function of the crate is scanned for calls into the standard '
               'library\'s file-system, process, environment, network, thread, time modules and unsafe/foreign code; each must be one of '
               'the five allowed operations. The operands of those operations are then decided from the program inlined from main and '
               'from the loader: what is written is an output path, a parent directory of one, or a loaded schema\'s own path; what is '
               'read is a queued schema path below the base directory.')
FLOORS = {'obligations': 60, 'functions': 10}

DANGER = re.compile(r'^(std::fs::|std::os::|std::net::|std::process::|std::env::|std::thread::|std::time::|std::io::stdin|'
                    r'std::path::(Path|PathBuf)::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|read_dir|read_link|canonicalize)|'
                    r'std::ptr::|std::ffi::CStr|libc::|tempfile|rand)')
ALLOWED = {'fs::read_to_string', 'fs::write', 'fs::create_dir_all', 'process::exit', 'Path::canonicalize'}


def extern_calls(prog):
    for name, j in prog.raw.items():
        for b in j['blocks']:
            t = b['term']
            fs = []
            if t['t'] == 'call' and t['f'].get('fn'):
                fs.append((t['f']['fn'], t.get('span') or j['span']))
            # function items used as values
            for o in ([a for a in t.get('args', [])] if t['t'] == 'call' else []):
                if o.get('k') == 'const' and 'fn' in o:
                    fs.append((o['fn'], j['span']))
            for s in b['st']:
                if s['s'] == '=':
                    for o in operands(s['rv']):
                        if o.get('k') == 'const' and 'fn' in o:
                            fs.append((o['fn'], j['span']))
            for f, sp in fs:
                if not f['local']:
                    yield name, f, sp


def operands(rv):
    out = []
    for k in ('a', 'b'):
        if isinstance(rv.get(k), dict):
            out.append(rv[k])
    out += rv.get('ops', []) if isinstance(rv.get('ops'), list) else []
    return out


def check(prog, rep):
    n = 0
    for name, f, sp in extern_calls(prog):
        rep.functions.add(name)
        p = f['path']
        if DANGER.match(p):
            n += 1
            rep.ob(short(p) in ALLOWED or p in ('std::process::exit',), 'effect:%s:%s' % (name, short(p)),
                   '%s calls %s, which is outside the program\'s effect footprint' % (name, p), str(sp))
    rep.ob(n >= 6, 'anchor:effects', 'only %d effectful calls found' % n)
    for name, j in prog.raw.items():
        rep.ob(not j.get('unsafe'), 'unsafe:' + name, '%s contains unsafe code' % name, sample=False)

    m = Cli(prog, rep)
    c = m.c
    writes = {'generate': 0, 'format': 0}
    for e in m.events:
        if e['kind'] != 'call' or not (FS_EFFECT.match(e.get('path') or '')) or e['f'] == 'process::exit':
            continue
        for cj, lits in m.conjs(e):
            md = mode(lits | set(e['cargs']))
            g = '; '.join(sorted(lits))[:500]
            tgt = e['cargs'][0] if e['cargs'] else ''
            if e['f'] == 'fs::write':
                good = {'generate': {RUST + '.Some', TS + '.Some'}, 'format': {'join(parent(%s).Some, val(%s).1)' % (FP, FS)}}.get(md, set())
                if md in writes:
                    writes[md] += 1
            elif e['f'] == 'fs::create_dir_all':
                good = {'generate': {'parent(%s.Some).Some' % RUST, 'parent(%s.Some).Some' % TS}}.get(md, set())
            else:
                good = set()
            rep.ob(tgt in good, 'target:%s:%s' % (md, e['f']), '%s is applied to %s in the %s command; path: {%s}' % (e['f'], tgt, md, g), e['site'])
            if e['f'] == 'fs::write' and md == 'format':
                rep.ob('¬' + CHECK in lits, 'check-writes', 'format --check writes; path: {%s}' % g, e['site'])
    rep.ob(writes['generate'] >= 2 and writes['format'] >= 1, 'anchor:writes', 'writes found: %s' % writes)

    an, rets = analyze(rep, prog, 'schema_loader::load_schemas')
    if an is None:
        return
    cc = Canon()
    reads = 0
    for e in an.events:
        if e['kind'] != 'call' or not FS_EFFECT.match(e.get('path') or ''):
            continue
        a = [cc(x) for x in e['args']]
        if e['f'] == 'fs::read_to_string':
            reads += 1
            t = e['args'][0]
            ok = is_t(t, 'call') and t[1] == 'Path::join' and cc(t[2][0]) == 'parent(arg0).Some'
            rep.ob(ok, 'read-target', 'the loader reads %s, which is not below the directory of the given schema' % a[0][:300], e['site'])
        else:
            rep.ob(e['f'] == 'Path::canonicalize', 'loader-effect:' + e['f'], 'the loader calls %s' % e['f'], e['site'])
    rep.ob(reads > 0, 'anchor:read', 'the loader reads no file')
