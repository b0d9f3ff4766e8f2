"""The command-line program as one inlined guarded-event summary, with the names the rules share."""
import re
from spec import *

GEN = "subcommand_matches(M, 'generate').Some"
FMT_ = "subcommand_matches(M, 'format').Some"
GP = "value_of(%s, 'generate-path').Some" % GEN
FP = "value_of(%s, 'format-path').Some" % FMT_
RUST = "value_of(%s, 'rust')" % GEN
TS = "value_of(%s, 'typescript')" % GEN
LIST = "is_present(%s, 'list-schemas')" % GEN
CHECK = "is_present(%s, 'check')" % FMT_
GS = 'load_schemas(%s).Ok' % GP
FS = 'load_schemas(%s).Ok' % FP
GLOAD = 'load_schemas(%s) is Ok' % GP
FLOAD = 'load_schemas(%s) is Ok' % FP
GVAL = 'validate(%s) is Ok' % GS
SHELL = re.compile(r"subcommand_matches\(M, 'shell-completion'\)")
FS_EFFECT = re.compile(r'^(std::fs::|std::os::|std::net::|std::process::|std::env::|std::thread::|std::time::|'
                       r'std::path::(Path|PathBuf)::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|read_dir|read_link|canonicalize))')


def is_matches(t):
    return t[0] in ('call', 'callm') and isinstance(t[1], str) and t[1].endswith('::get_matches')


class Cli:
    def __init__(self, prog, rep, load_inline=False, **kw):
        self.c = Canon([(is_matches, 'M')])
        self.rep = rep
        self.prog = prog
        an, rets = analyze(rep, prog, 'main', **kw)
        self.an, self.rets = an, rets
        if an is None:
            self.events = []
            return
        self.events = an.events
        for e in self.events:
            if e['kind'] == 'call':
                e['cargs'] = tuple(self.c(a) for a in e['args'])

    def calls(self, *names):
        return [e for e in self.events if e['kind'] == 'call' and (e['f'] in names or e.get('path') in names)]

    def conjs(self, e):
        return [(cj, self.c.conj(cj)) for cj in (e['guard'] if isinstance(e, dict) else e.guard)]


def mode(lits):
    s = ' '.join(lits)
    if GP in s:
        return 'generate'
    if FP in s:
        return 'format'
    if SHELL.search(s):
        return 'shell'
    return 'none'


def written(t):
    """a text as it is written: its bytes"""
    t = strip(t)
    while is_t(t, 'call') and t[1] in ('str::as_bytes', 'String::as_bytes', 'String::into_bytes', 'String::as_str', 'String::into_boxed_str') and len(t[2]) == 1:
        t = t[2][0]
    return t


def mutated(t):
    """a collection returned by load_schemas that was modified afterwards"""
    return contains(t, lambda x: is_t(x, 'mut') and contains(x[1], lambda y: is_t(y, 'call') and y[1] == 'schema_loader::load_schemas'))
