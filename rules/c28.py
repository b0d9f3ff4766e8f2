"""C28: the command line is the documented one and every part of it is wired to what it stands for."""
import os
import re
import build
from engine import is_t, strip, walk
from spec import Canon, analyze
from cli import Cli, is_matches

EXPLANATION = ('The description of the command line that the program hands to its argument parser, and every question it asks about the parsed arguments, from the compiler\'s MIR with helpers inlined. Rule: the commands, '
               'options and arguments are exactly the documented ones, with nothing that changes how they are parsed; each question is about a declared argument of the command at hand and fits its kind; the completion script printed '
               'is that of the shell named, for this very command line.')
FLOORS = {'obligations': 60, 'functions': 5}

SPEC = {
    'generate': {('pos', 'required'), ('flag', 'list-schemas'), ('value', 'rust'), ('value', 'typescript')},
    'format': {('pos', 'required'), ('flag', 'check')},
    'shell-completion': {('pos', 'required')},
}
SHELLS = {'bash': 'Bash', 'fish': 'Fish', 'zsh': 'Zsh', 'powershell': 'PowerShell', 'elvish': 'Elvish'}
SHOWN = {'about', 'long_about', 'author', 'help', 'long_help', 'display_order', 'after_help', 'before_help', 'usage', 'template', 'help_message', 'version_message', 'hide_env_values', 'bin_name', 'hide_default_value', 'next_line_help',
         'number_of_values_shown', 'long_version'}
SETTINGS = {'ColoredHelp', 'ColorAuto', 'ColorNever', 'ColorAlways', 'NextLineHelp', 'UnifiedHelpMessage', 'VersionlessSubcommands', 'DeriveDisplayOrder', 'GlobalVersion', 'DontCollapseArgsInUsage', 'DisableHelpSubcommand'}
REQUIRED = {'SubcommandRequiredElseHelp', 'SubcommandRequired'}


def const(t):
    return t[1] if is_t(t, 'const') else None


def name_of(t):
    return t[1].split('::')[-1] if t[0] in ('call', 'callm') and isinstance(t[1], str) else None


def chain(t):
    """builder calls from the innermost out: [(method, args)]"""
    out = []
    while isinstance(t, tuple) and t and t[0] in ('call', 'callm') and t[2]:
        n = name_of(t)
        if n in ('new', 'with_name'):
            out.append((n, t[2]))
            return out[::-1]
        out.append((n, t[2][1:]))
        t = t[2][0]
    return None


def items(t):
    if is_t(t, 'array') or is_t(t, 'tuple'):
        return list(t[1])
    return None


class Described:
    def __init__(self, rep):
        self.rep = rep
        self.cmds = {}
        self.version = None

    def arg(self, t, cmd):
        ch = chain(t)
        if ch is None or const(ch[0][1][0]) is None:
            self.rep.fail('argument:%s' % cmd, 'an argument of %s is not followed: %s' % (cmd, Canon()(t)[:200]))
            return
        a = dict(name=const(ch[0][1][0]), long=None, short=None, value=False, required=False)
        for m, xs in ch[1:]:
            v = const(xs[0]) if xs else None
            if m == 'long' and isinstance(v, str):
                a['long'] = v.lstrip('-')
            elif m == 'short' and isinstance(v, str):
                a['short'] = v
            elif m == 'value_name':
                a['value'] = True
            elif m == 'takes_value':
                a['value'] = bool(v)
            elif m == 'required':
                a['required'] = bool(v)
            elif m in SHOWN:
                pass
            else:
                self.rep.fail('parsed:%s:%s:%s' % (cmd, a['name'], m), 'the argument %s of %s is declared with %s, which the documentation does not mention' % (a['name'], cmd, m))
        opt = a['long'] or a['short']
        a['kind'] = ('value', a['long']) if opt and a['value'] else ('flag', a['long']) if opt else ('pos', 'required' if a['required'] else 'optional')
        if opt:
            self.rep.ob(not a['required'], 'optional:%s:%s' % (cmd, a['name']), 'the option %s of %s must be given' % (a['name'], cmd))
            self.rep.ob(not a['short'], 'short:%s:%s' % (cmd, a['name']), 'the option %s of %s has an undocumented short form' % (a['name'], cmd), sample=False)
        args = self.cmds.setdefault(cmd, {})
        self.rep.ob(a['name'] not in args, 'twice:%s:%s' % (cmd, a['name']), 'the argument %s of %s is declared twice' % (a['name'], cmd), sample=False)
        args[a['name']] = a

    def app(self, t, top):
        ch = chain(t)
        if ch is None or const(ch[0][1][0]) is None:
            self.rep.fail('command', 'a command is not followed: ' + Canon()(t)[:200])
            return
        cmd = '' if top else const(ch[0][1][0])
        self.rep.ob(cmd not in self.cmds, 'twice:' + cmd, 'the command %s is declared twice' % cmd, sample=False)
        self.cmds.setdefault(cmd, {})
        settings = set()
        for m, xs in ch[1:]:
            many = items(xs[0]) if xs and m in ('subcommands', 'args', 'settings') else [xs[0]] if xs else []
            if many is None:
                self.rep.fail('list:' + cmd, 'the %s of %s are not followed: %s' % (m, cmd or 'the program', Canon()(xs[0])[:200]))
            elif m in ('subcommand', 'subcommands'):
                for x in many:
                    self.rep.ob(top, 'nested:' + cmd, 'the command %s has commands of its own' % cmd, sample=False)
                    self.app(x, False)
            elif m in ('arg', 'args'):
                for x in many:
                    self.arg(x, cmd)
            elif m in ('setting', 'settings'):
                settings |= {x[2] if is_t(x, 'agg') else '?' for x in many}
            elif m == 'version':
                self.version = const(xs[0]) if top else self.version
            elif m == 'version_short' or m in SHOWN:
                pass
            else:
                self.rep.fail('parsed:%s:%s' % (cmd, m), 'the command %s is declared with %s, which the documentation does not mention' % (cmd or 'line', m))
        bad = settings - SETTINGS - REQUIRED
        self.rep.ob(not bad, 'settings:' + cmd, 'the command %s is parsed with the settings %s' % (cmd or 'line', sorted(bad)))
        if top:
            self.rep.ob(bool(settings & REQUIRED), 'command-required', 'the command line is accepted without a command')


def check(prog, rep):
    C = Cli(prog, rep)
    if not C.events:
        return
    got = [e for e in C.events if e['kind'] == 'call' and 'get_matches' in str(e['f'])]
    rep.ob(len(got) == 1 and got[0]['f'].endswith('::get_matches'), 'parse', 'the command line is not parsed exactly once by get_matches: %s' % [e['f'] for e in got])
    if len(got) != 1:
        return
    app = strip(got[0]['args'][0])
    d = Described(rep)
    d.app(app, True)
    for cmd, want in sorted(SPEC.items()):
        args = d.cmds.get(cmd)
        rep.ob(args is not None, 'command:' + cmd, 'the documented command %s is not declared' % cmd)
        if args is None:
            continue
        have = [a['kind'] for a in args.values()]
        for k in sorted(want):
            rep.ob(have.count(k) == 1, 'declared:%s:%s' % (cmd, k[1]), 'the command %s does not take %s' % (cmd, describe(k)))
        for k in have:
            rep.ob(k in want, 'undocumented:%s:%s' % (cmd, k[1]), 'the command %s takes %s, which is not documented' % (cmd, describe(k)), sample=False)
    for cmd in sorted(set(d.cmds) - set(SPEC) - {''}):
        rep.fail('undocumented:' + cmd, 'the command %s is not documented' % cmd)
    rep.ob(not d.cmds.get(''), 'global', 'the program takes arguments before the command: %s' % sorted(d.cmds.get('', {})))
    m = re.search(r'(?m)^\[package\][^\[]*?^version *= *"([^"]+)"', open(os.path.join(build.REPO, 'Cargo.toml')).read())
    rep.ob(m and d.version == m.group(1), 'version', 'the version printed is %r, the version of the package is %s' % (d.version, m and m.group(1)))
    questions(C, rep, d)
    completions(C, rep, d, app)


def describe(k):
    return {'pos': 'a %s argument' % k[1], 'flag': 'a flag --%s' % k[1], 'value': 'an option --%s with a value' % k[1]}[k[0]]


def questions(C, rep, d):
    """every question about the parsed arguments names a declared one, and what it is used for fits"""
    seen = set()
    ask = {}
    for e in C.events:
        if e['kind'] == 'call' and e['f'].split('::')[-1] in ('value_of', 'is_present', 'subcommand_matches', 'values_of', 'value_of_lossy', 'value_of_os', 'occurrences_of', 'subcommand', 'subcommand_name', 'usage', 'args', 'index_of'):
            t = tuple(strip(x) for x in e['args'])
            ask[(e['f'].split('::')[-1], t)] = e
    for (q, t), e in sorted(ask.items(), key=str):
        site = e['site']
        if q in ('subcommand', 'subcommand_name'):
            continue
        n = const(t[1]) if len(t) > 1 else None
        if q == 'subcommand_matches':
            rep.ob(n in SPEC, 'asks:%s' % n, 'the program asks for the command %s, which is not declared' % n, site=site)
            continue
        cmd = command(t[0])
        rep.ob(cmd in d.cmds, 'asks:%s:command' % n, 'the program asks for %s of something that is not a declared command: %s' % (n, C.c(t[0])), site=site)
        a = d.cmds.get(cmd, {}).get(n)
        rep.ob(a is not None, 'asks:%s:%s' % (cmd, n), 'the program asks for the argument %s of %s, which is not declared' % (n, cmd), site=site)
        if a is None:
            continue
        if q in ('value_of', 'value_of_lossy', 'value_of_os'):
            rep.ob(a['kind'][0] != 'flag', 'value:%s:%s' % (cmd, n), 'the program asks for the value of %s of %s, which has none' % (n, cmd), site=site)
        elif q == 'is_present':
            rep.ob(a['kind'][0] != 'pos', 'flag:%s:%s' % (cmd, n), 'the program asks whether %s of %s is given, which always is' % (n, cmd), site=site)
        else:
            rep.fail('asks:%s:%s:%s' % (cmd, n, q), 'the program asks %s of %s, which its kind does not call for' % (q, n), site=site)
        seen.add((cmd, n))
    for cmd, args in d.cmds.items():
        for n in args:
            rep.ob((cmd, n) in seen, 'unused:%s:%s' % (cmd, n), 'the argument %s of %s is declared but never asked for' % (n, cmd))


def command(t):
    """the command whose matches these are"""
    for x in walk(t):
        if isinstance(x, tuple) and x and x[0] in ('call', 'callm') and name_of(x) == 'subcommand_matches':
            return const(x[2][1])
    return None


def shell_of(a, cmdarg):
    """(name, folded) if the literal compares the named shell with a constant"""
    if a[0] != 'b' or not is_t(a[1], 'call'):
        return None
    n = name_of(a[1])
    if n not in ('eq', 'eq_ignore_ascii_case'):
        return None
    xs = a[1][2]
    cs = [const(x) for x in xs if isinstance(const(x), str)]
    ts = [x for x in xs if const(x) is None]
    if len(cs) != 1 or len(ts) != 1:
        return None
    if not any(isinstance(x, tuple) and x and x[0] in ('call', 'callm') and name_of(x) == 'value_of' and command(x) == 'shell-completion' for x in walk(ts[0])):
        return None
    folded = n == 'eq_ignore_ascii_case' or any(isinstance(x, tuple) and x and x[0] in ('call', 'callm') and name_of(x) in ('to_lowercase', 'to_ascii_lowercase') for x in walk(ts[0]))
    return cs[0], folded


def completions(C, rep, d, app):
    evs = [e for e in C.events if e['kind'] == 'call' and e['f'].split('::')[-1] in ('gen_completions_to', 'gen_completions')]
    served = {}
    for e in evs:
        site = e['site']
        rep.ob(e['f'].endswith('gen_completions_to'), 'completion:file', 'the completion script goes to a file', site=site)
        args = [strip(x) for x in e['args']]
        rep.ob(C.c(args[0]) == C.c(app), 'completion:app', 'the completion script is for another command line than the one that is parsed', site=site)
        rep.ob(const(args[1]) == 'typical', 'completion:name', 'the completion script is for a program called %s' % C.c(args[1]), site=site)
        sh = args[2][2] if is_t(args[2], 'agg') else None
        rep.ob(sh is not None, 'completion:shell', 'the shell of the completion script is not followed: ' + C.c(args[2])[:200], site=site)
        rep.ob('stdout()' in C.c(args[3]) and 'stderr' not in C.c(args[3]), 'completion:stdout', 'the completion script goes to %s' % C.c(args[3])[:80], site=site)
        for cj in e['guard']:
            pos = [(shell_of(a, None), a) for a, v in cj if a[0] == 'b' and True in v and shell_of(a, None)]
            names = {p[0][0].lower() for p in pos}
            rep.ob(len(names) == 1, 'completion:which', 'a completion script is printed for the shells %s' % sorted(names), site=site)
            for (n, folded), _ in pos:
                rep.ob(n == n.lower() or not folded, 'completion:case:' + n, 'the shell %s is never recognised' % n, site=site)
                rep.ob(folded, 'completion:fold:' + n, 'the shell %s is recognised in one spelling only' % n, site=site)
                rep.ob(SHELLS.get(n.lower()) == sh, 'completion:%s' % n, 'the completion script printed for %s is that for %s' % (n, sh), site=site)
                served[n.lower()] = sh
    for n in SHELLS:
        rep.ob(n in served, 'completion:none:' + n, 'no completion script is printed for the shell %s' % n)
    for e in C.events:
        if e['kind'] == 'call' and e['f'].split('::')[-1] in ('_print',):
            for cj in e['guard']:
                t = [a for a, v in cj if a[0] == 'is' and 'Some' in v and is_t(a[1], 'call') and name_of(a[1]) == 'subcommand_matches' and const(a[1][2][1]) == 'shell-completion']
                rep.ob(not t, 'completion:extra', 'something besides the completion script is printed', site=e['site'])
        if e['kind'] == 'call' and e['f'].split('::')[-1] == 'exit':
            for cj in e['guard']:
                pos = [shell_of(a, None)[0] for a, v in cj if a[0] == 'b' and True in v and shell_of(a, None)]
                rep.ob(not [n for n in pos if n.lower() in SHELLS], 'completion:fails', 'the program fails for the shells %s' % pos, site=e['site'])
