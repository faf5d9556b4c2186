"""C07 - every file, store, connection or descriptor a function opens for
itself is released when it finishes, and is not used afterwards.  Typestate
analysis of every function of the package (syntax-directed, path-sensitive,
with summaries of the repository's own callees); converters write metadata to
a file by name only while no store is open on it; the temporary store's life
cycle is interpreted abstractly."""
import ast

from names import Names, locals_of
from typestate import analyse, ACQUIRE, CLOSED, ESC, OPEN
from values import AObj, short
from fsmodel import FS
from interp import AbstractRaise
from .tfcommon import exc_name
from .storecommon import TMP, interp_with, set_world, mk_hstore

MIN_OBLIGATIONS = 30
ASSUMPTIONS = ['an error exit (an exception leaving a converter) ends the '
               'run and is not required to release the output store',
               'a handle that is never bound to a name is released by '
               'reference counting as soon as the expression is evaluated']
EXTERNAL = {
    'nilm_metadata.save_yaml_to_datastore': 'uses',
    'pickle.dump': 'uses', 'pickle.load': 'uses', 'yaml.dump': 'uses',
    'json.dump': 'uses', 'json.load': 'uses', 'pandas.read_csv': 'uses',
    'pandas.read_sql': 'uses', 'csv.reader': 'uses', 'csv.writer': 'uses',
}


class Summaries(object):
    def __init__(self, names):
        self.names = names
        self.cache = {}

    def __call__(self, dotted, i, kw):
        if dotted in EXTERNAL:
            return EXTERNAL[dotted]
        d = self.names.defs.get(dotted)
        if d is None:
            return None
        m, node = d
        if isinstance(node, ast.ClassDef):
            return 'escapes'
        pos = [a.arg for a in node.args.posonlyargs + node.args.args]
        p = kw if kw is not None else pos[i] if i < len(pos) else None
        if p is None:
            return None
        k = (dotted, p)
        if k not in self.cache:
            self.cache[k] = 'uses'          # recursion
            loc = locals_of(node)
            a, exits = analyse(node, self.names.resolver(m, loc), self,
                               seed=[p])
            sts = {s.res[p][0] for s, ln in exits if p in s.res}
            if ESC in sts:
                r = 'escapes'
            elif sts == {CLOSED}:
                r = 'closes'
            elif CLOSED in sts:
                r = 'may-close'
            else:
                r = 'uses'
            self.cache[k] = r
        return self.cache[k]


def run(ctx):
    names = Names(ctx.project)
    summ = Summaries(names)
    sites = 0
    for m, q, fn in names.functions():
        loc = locals_of(fn)
        a, exits = analyse(fn, names.resolver(m, loc), summ)
        ctx.functions.add(m + '.' + q)
        ctx.paths += len(exits)
        path = ctx.project.relpath(ctx.project.modules[m][0])
        bad = set()
        for f in a.findings:
            rule = {'leak': 'released-on-exit',
                    'use-after-close': 'not-used-after-release',
                    'metadata-into-open-file': 'metadata-after-close'}[f.rule]
            if (rule, f.var, f.kind) in bad:
                continue
            bad.add((rule, f.var, f.kind))
            ctx.violation(rule, '%s.%s:%s' % (m, q, f.var), '%s %s: %s' % (
                f.kind, f.var, f.detail), '%s:%d' % (path, f.line))
        if a.sites:
            sites += a.sites
            ctx.ok('released-on-exit', a.sites)
            ctx.sample('%s.%s: %d acquisition(s), %d exit state(s)' % (
                m, q, a.sites, len(exits)))
        if a.calls:
            ctx.ok('not-used-after-release', a.calls)
    ctx.notes.append('%d acquisition sites' % sites)
    tmp(ctx)


def tmp(ctx):
    I = interp_with(ctx, FS())
    sc = ctx.anchor(I, TMP)
    LOC = 'nilmtk/datastore/tmpdatastore.py'
    C = 'TmpDataStore'
    for gone in (False, True):
        def go():
            fs = FS()
            hs = mk_hstore()
            set_world(I, fs, hs)
            st = I.call(sc, [], {})
            n = len(I.trace)
            files = list(fs.files)
            if gone:
                fs.files.clear()
            I.call(I.getattr(st, 'close'), [], {})
            return fs, hs, files, I.trace
        for out, v, tr in I.explore(go):
            ctx.paths += 1
            d = 'temporary store%s' % (
                ' whose file was already removed' if gone else '')
            if out == 'undecided':
                ctx.undecided(C, v)
                continue
            if out == 'raise':
                ctx.violation('temporary-file', C, d + ' raises ' +
                              exc_name(v), LOC)
                continue
            fs, hs, files, t = v
            ctx.expect(all(f.closed for f in fs.fds), 'descriptor-closed',
                       C, d + ': the descriptor from mkstemp stays open',
                       LOC)
            ctx.expect(not fs.files, 'temporary-file', C, '%s: %s is left '
                       'on disk after close' % (d, list(fs.files)), LOC)
            ops = [(i, e) for i, e in enumerate(t)]
            ci = [i for i, e in ops if e.kind == 'store' and
                  e.data['op'] == 'close']
            ui = [i for i, e in ops if e.kind == 'unlink']
            ctx.expect(bool(ci) and (not ui or ci[0] < ui[0]),
                       'closed-before-unlink', C,
                       d + ': file removed before the store was closed', LOC)
    ctx.absorb(I)


POSITIVE = '''
def f(p, flag):
    h = open(p)
    if flag:
        return 1
    h.close()
    return 2
def g(p):
    h = open(p)
    h.close()
    h.read()
'''


def selftest(ctx):
    t = ast.parse(POSITIVE)

    def res(e):
        return e.id if isinstance(e, ast.Name) else None
    out = []
    for fn in t.body:
        a, _ = analyse(fn, res, lambda *x: None)
        out.append({f.rule for f in a.findings})
    if out != [{'leak'}, {'use-after-close'}]:
        return 'typestate positive example not matched: %s' % out
