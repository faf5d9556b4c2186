"""Path-sensitive abstract interpreter over Python syntax trees.

The interpreter walks the *source* of the analysed project (ast nodes) with
abstract values (values.py).  Project functions are inlined at their call
sites, so helpers, wrappers, loops-vs-comprehensions etc. make no difference
to what is computed.  External libraries are represented by models
(models.py); anything without a model becomes an opaque provenance term.
Whenever a branch depends on a value the abstract domain cannot decide, both
branches are followed (disjunctive completion by replay: see `explore`).
No solver is used and nothing of the project is executed or imported.
"""
import ast
import builtins as _b
import json
import os

from values import (AList, AListSub, ADict, ASet, AModule, Ext, AFunc, ABound, Native,
                    AProp, AStatic, AClass, AObj, AGen, Super, Dom, Opq, Val,
                    short, key_of, fresh, _uid)


# names NumPy 2 no longer has
GONE_FROM_NUMPY = frozenset('''NaN NAN Inf Infinity PINF NINF infty float_
int object float str unicode_ string_ alltrue sometrue product cumproduct
in1d trapz row_stack msort cast asfarray find_common_type complex_ round_
mat bool8'''.split())


class Undecided(Exception):
    """The analysis cannot follow this path (limit or unmodelled construct)."""


class NewChoice(Exception):
    pass


class AbstractRaise(Exception):
    def __init__(self, exc, loc=None):
        Exception.__init__(self, exc)
        self.exc = exc
        self.loc = loc


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class ASlice(Val):
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return 'slice(%s, %s, %s)' % (short(self.start), short(self.stop),
                                      short(self.step))


class NTuple(tuple):
    """namedtuple instance"""
    nt = None


class LazyImport(object):
    __slots__ = ('module', 'attr')

    def __init__(self, module, attr):
        self.module = module
        self.attr = attr


class ObjDict(ADict):
    """obj.__dict__: write-through view"""
    __slots__ = ('obj',)

    def __init__(self, obj):
        ADict.__init__(self)
        self.obj = obj


class Env(object):
    __slots__ = ('vars', 'parent', 'local_names', 'globals_decl',
                 'nonlocals', 'kind')

    def __init__(self, parent, local_names=None, kind='func'):
        self.vars = {}
        self.parent = parent
        self.local_names = local_names
        self.globals_decl = ()
        self.nonlocals = ()
        self.kind = kind


class Module(object):
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.ns = None      # dict once executed
        self.is_pkg = os.path.basename(path) == '__init__.py'


class Frame(object):
    __slots__ = ('func', 'env', 'line', 'mod', 'self')

    def __init__(self, func, env, mod, self_=None):
        self.func = func
        self.env = env
        self.line = 0
        self.mod = mod
        self.self = self_


class Event(object):
    __slots__ = ('kind', 'data', 'loc', 'stack')

    def __init__(self, kind, data, loc, stack):
        self.kind = kind
        self.data = data
        self.loc = loc
        self.stack = stack

    def __getattr__(self, n):
        try:
            return self.data[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return '%s%s @%s' % (self.kind, self.data, self.loc)


def collect_locals(node):
    """names assigned in a function body (not nested scopes)"""
    names, glob, nonl = set(), set(), set()
    is_gen = [False]

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            walk(n.generators[0].iter)
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    target(sub.target)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            is_gen[0] = True
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            target(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            target(n.target)
        elif isinstance(n, ast.NamedExpr):
            target(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for it in n.items:
                if it.optional_vars is not None:
                    target(it.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        elif hasattr(ast, 'MatchAs') and isinstance(
                n, (ast.MatchAs, ast.MatchStar)):
            if n.name:
                names.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    return names - glob - nonl, glob, nonl, is_gen[0]


BINOP = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
         ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitAnd: '&',
         ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>',
         ast.MatMult: '@'}
CMPOP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
         ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
         ast.In: 'in', ast.NotIn: 'not in'}
FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv',
          '//': 'floordiv', '%': 'mod', '**': 'pow', '&': 'and', '|': 'or',
          '^': 'xor', '<<': 'lshift', '>>': 'rshift', '@': 'matmul'}
CMPDUNDER = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__',
             '>': '__gt__', '>=': '__ge__'}

import operator as _op

_SIGNATURES = {}


def leading(keys, args, kwargs):
    """The call with its leading named arguments given by position, or None.

    The names come from the libraries' signatures (tools/signatures.py)."""
    if not _SIGNATURES:
        _SIGNATURES.update(json.load(open(os.path.join(
            os.path.dirname(os.path.abspath(__file__)), 'signatures.json'))))
    names = next((_SIGNATURES[k] for k in keys if k in _SIGNATURES), ())
    a, k = list(args), dict(kwargs)
    for n in names[len(a):]:
        if n not in k:
            break
        a.append(k.pop(n))
    return (a, k) if len(a) > len(args) else None
PYOP = {'+': _op.add, '-': _op.sub, '*': _op.mul, '/': _op.truediv,
        '//': _op.floordiv, '%': _op.mod, '**': _op.pow, '&': _op.and_,
        '|': _op.or_, '^': _op.xor, '<<': _op.lshift, '>>': _op.rshift,
        '==': _op.eq, '!=': _op.ne, '<': _op.lt, '<=': _op.le,
        '>': _op.gt, '>=': _op.ge}
SCALAR = (bool, int, float, str, bytes, complex, type(None), type(Ellipsis))
_missing = object()


def parse(src, path):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return ast.parse(src, path)


class Project(object):
    """Parsed modules of the analysed tree (shared by all runs)."""

    def __init__(self, root, package='nilmtk'):
        self.root = root
        self.package = package
        self.modules = {}
        self.errors = []
        base = os.path.join(root, package)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in ('__pycache__',))
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-len('.__init__')]
                try:
                    with open(p, 'rb') as fh:
                        tree = parse(fh.read(), p)
                except SyntaxError as e:
                    self.errors.append('%s: %s' % (p, e))
                    continue
                self.modules[rel] = (p, tree)

    def relpath(self, p):
        return os.path.relpath(p, self.root)


STDLIB = {'os.path', 'os', 'math', 'itertools', 'collections', 'typing',
          'functools', 'operator', 'string', 'time', 'datetime', 're'}


def star_has(mod, name):
    """does `from mod import *` bind the name (libraries: assumed)"""
    if mod not in STDLIB:
        return True
    import importlib
    m = importlib.import_module(mod)
    names = getattr(m, '__all__', None)
    if names is None:
        return hasattr(m, name) and not name.startswith('_')
    return name in names


class Interp(object):
    MAX_STEPS = 400000
    MAX_DEPTH = 60
    LOOP_BOUND = 6
    ITER_CHOICES = (0, 1, 2)

    def __init__(self, project, models=None, overrides=None):
        self.project = project
        self.mods = {}
        for name, (path, tree) in project.modules.items():
            self.mods[name] = Module(name, path, tree)
        import models as M
        self.models = dict(M.MODELS)
        self.methods = M.METHODS
        if models:
            self.models.update(models)
        self.overrides = dict(overrides or {})
        self.overrides.setdefault('nilmtk.docinherit.DocInherit',
                                  lambda I, a, k: a[0])
        # path state
        self.decisions = []
        self.pos = 0
        self.trace = []
        self.facts = {}
        self.stack = []
        self.steps = 0
        self.may_raise = None     # fault hook
        self.analysed = set()     # qualnames of functions entered
        self.recording = True
        self.loader_cache = {}
        self.truth_log = []
        self.assign_hook = None
        self.undecided_reasons = {}

    # ------------------------------------------------------------ paths
    def reset_path(self):
        self.pos = 0
        self.trace = []
        self.facts = {}
        self.stack = []
        self.steps = 0
        self.truth_log = []

    def choose(self, n, tag=''):
        """Non-deterministic choice among range(n)."""
        if n == 1:
            return 0
        if self.pos < len(self.decisions):
            c = self.decisions[self.pos][0]
            self.pos += 1
            return c
        self.decisions.append([0, n, tag])
        self.pos += 1
        return 0

    def explore(self, fn, max_paths=20000):
        """Run fn() once per path; yields (outcome, value, trace).

        outcome in 'return', 'raise', 'undecided'."""
        self.decisions = []
        n = 0
        while True:
            self.reset_path()
            try:
                v = fn()
                out = ('return', v)
            except AbstractRaise as e:
                out = ('raise', e.exc)
            except Undecided as e:
                out = ('undecided', str(e))
                k = str(e).split(':')[0]
                self.undecided_reasons[k] = \
                    self.undecided_reasons.get(k, 0) + 1
            except RecursionError:
                out = ('undecided', 'recursion')
            except Exception as e:
                # a construct some model was not written for: no verdict
                if os.environ.get('SA_DEBUG'):
                    raise
                out = ('undecided', 'unmodelled: %s: %s' % (
                    type(e).__name__, str(e)[:200]))
            del self.decisions[self.pos:]
            yield out[0], out[1], self.trace
            n += 1
            if n >= max_paths:
                yield 'undecided', 'path budget', self.trace
                return
            while self.decisions:
                d = self.decisions[-1]
                if d[0] + 1 < d[1]:
                    d[0] += 1
                    break
                self.decisions.pop()
            if not self.decisions:
                return

    def path_str(self):
        return '; '.join('%s=%s' % (t, c)
                         for c, n, t in self.decisions[:self.pos] if t)

    # ------------------------------------------------------------ events
    def loc(self):
        for fr in reversed(self.stack):
            if fr.func is not None:
                return '%s:%d (%s)' % (
                    self.project.relpath(fr.mod.path), fr.line,
                    fr.func.qualname.split('.', 1)[-1]
                    if isinstance(fr.func, AFunc) else fr.mod.name)
        return '?'

    def event(self, kind, **data):
        if not self.recording:
            return
        st = tuple(f.func.qualname for f in self.stack
                   if isinstance(f.func, AFunc))
        self.trace.append(Event(kind, data, self.loc(), st))

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.mods.get(name)
        if m is None:
            return None
        if m.ns is None:
            m.ns = {'__name__': name, '__file__': m.path}
            env = Env(None, None, 'module')
            env.vars = m.ns
            fr = Frame(None, env, m)
            saved = self.stack, self.recording, self.trace
            saved_dec = self.decisions, self.pos, self.facts
            self.stack, self.recording, self.trace = [fr], False, []
            self.decisions, self.pos, self.facts = [], 0, {}
            try:
                try:
                    for s in m.tree.body:
                        try:
                            for _ in self.exec_stmt(s, env):
                                pass
                        except (Undecided, AbstractRaise):
                            continue
                except (_Break, _Continue, _Return):
                    pass
            finally:
                self.stack, self.recording, self.trace = saved
                self.decisions, self.pos, self.facts = saved_dec
        return m

    def module_attr(self, modname, attr):
        m = self.module(modname)
        if m is None:
            return Ext(modname + '.' + attr)
        v = m.ns.get(attr, _missing)
        if v is not _missing:
            return self.resolve_lazy(v, m.ns, attr)
        if modname + '.' + attr in self.mods:
            return AModule(modname + '.' + attr)
        # star imports
        for star in m.ns.get('__star__', ()):
            if star in self.mods:
                try:
                    return self.module_attr(star, attr)
                except KeyError:
                    pass
        raise KeyError(attr)

    def resolve_lazy(self, v, ns, name):
        seen = 0
        while isinstance(v, LazyImport):
            seen += 1
            if seen > 50:
                raise Undecided('import cycle')
            if v.attr is None:
                v = AModule(v.module) if v.module in self.mods \
                    else Ext(v.module)
            elif v.module in self.mods:
                sub = v.module + '.' + v.attr
                try:
                    v = self.module_attr(v.module, v.attr)
                except KeyError:
                    if sub in self.mods:
                        v = AModule(sub)
                    else:
                        v = Ext(sub)
            else:
                v = Ext(v.module + '.' + v.attr)
        ns[name] = v
        return v

    def get(self, dotted):
        """Fetch 'nilmtk.timeframe.TimeFrame' or ...'.TimeFrame.slice'."""
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            mn = '.'.join(parts[:i])
            if mn in self.mods:
                v = AModule(mn)
                for a in parts[i:]:
                    if isinstance(v, AModule):
                        v = self.module_attr(v.name, a)
                    elif isinstance(v, AClass):
                        v = v.lookup(a)
                        if v is None:
                            raise KeyError(dotted)
                    else:
                        raise KeyError(dotted)
                return v
        raise KeyError(dotted)

    # ------------------------------------------------------------ errors
    def throw(self, excname, *args):
        exc = AObj(Ext('builtins.' + excname), {'args': tuple(args)})
        raise AbstractRaise(exc, self.loc())

    # ------------------------------------------------------------ lookup
    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if e.kind == 'class' and not first:
                e = e.parent
                continue
            first = False
            if name in e.globals_decl:
                while e.parent is not None:
                    e = e.parent
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, LazyImport):
                    v = self.resolve_lazy(v, e.vars, name)
                return v
            if e.local_names is not None and name in e.local_names \
                    and e.kind == 'func':
                self.throw('UnboundLocalError', name)
            if e.kind == 'module':
                for star in e.vars.get('__star__', ()):
                    if star in self.mods:
                        try:
                            return self.module_attr(star, name)
                        except KeyError:
                            pass
                    elif star_has(star, name):
                        return Ext(star + '.' + name)
            e = e.parent
        if hasattr(_b, name):
            return Ext('builtins.' + name)
        self.throw('NameError', name)

    def bind(self, name, value, env):
        e = env
        if name in e.globals_decl:
            while e.parent is not None:
                e = e.parent
            e.vars[name] = value
            self.event('setglobal', name=name, value=value)
            return
        if name in e.nonlocals:
            e = e.parent
            while e is not None and not (e.local_names is not None and
                                         name in e.local_names):
                e = e.parent
            if e is not None:
                e.vars[name] = value
            return
        # comprehension scopes bind walrus in the function; plain binds local
        e.vars[name] = value

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            for y in self.exec_stmt(s, env):
                yield y

    def tick(self, node):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Undecided('step budget')
        if self.stack:
            ln = getattr(node, 'lineno', None)
            if ln is not None:
                self.stack[-1].line = ln

    def exec_stmt(self, s, env):
        self.tick(s)
        t = type(s)
        if t is ast.Expr:
            v = s.value
            if isinstance(v, ast.Yield):
                yield (self.eval(v.value, env) if v.value else None)
            elif isinstance(v, ast.YieldFrom):
                for x in self.iterate(self.eval(v.value, env)):
                    yield x
            else:
                self.eval(v, env)
        elif t is ast.Assign:
            if isinstance(s.value, ast.Yield):
                yield (self.eval(s.value.value, env)
                       if s.value.value else None)
                val = None
            else:
                val = self.eval(s.value, env)
            for tg in s.targets:
                self.assign(tg, val, env)
        elif t is ast.AugAssign:
            self.augassign(s, env)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, env), env)
        elif t is ast.If:
            if self.truth(self.eval(s.test, env)):
                for y in self.exec_block(s.body, env):
                    yield y
            else:
                for y in self.exec_block(s.orelse, env):
                    yield y
        elif t is ast.For:
            broke = False
            it = self.iterate(self.eval(s.iter, env))
            for v in it:
                self.tick(s)
                self.assign(s.target, v, env)
                try:
                    for y in self.exec_block(s.body, env):
                        yield y
                except _Break:
                    broke = True
                    break
                except _Continue:
                    continue
            if not broke:
                for y in self.exec_block(s.orelse, env):
                    yield y
        elif t is ast.While:
            n = 0
            broke = False
            while True:
                self.tick(s)
                p0 = self.pos
                c = self.truth(self.eval(s.test, env))
                if not c:
                    break
                n += 1
                try:
                    for y in self.exec_block(s.body, env):
                        yield y
                except _Break:
                    broke = True
                    break
                except _Continue:
                    pass
                if self.pos != p0 and n > self.LOOP_BOUND:
                    raise Undecided('loop bound')
            if not broke:
                for y in self.exec_block(s.orelse, env):
                    yield y
        elif t is ast.Return:
            raise _Return(self.eval(s.value, env)
                          if s.value is not None else None)
        elif t is ast.Raise:
            if s.exc is None:
                cur = self.facts.get('__handling__')
                if cur:
                    raise AbstractRaise(cur[-1], self.loc())
                self.throw('RuntimeError', 'No active exception to reraise')
            v = self.eval(s.exc, env)
            if s.cause is not None:
                self.eval(s.cause, env)
            if isinstance(v, (AClass, Ext)):
                v = self.call(v, [], {})
            if isinstance(v, Opq):
                v = AObj(Ext('builtins.Exception'), {'args': (v,)})
            raise AbstractRaise(v, self.loc())
        elif t is ast.Try:
            for y in self.exec_try(s, env):
                yield y
        elif t is ast.With:
            for y in self.exec_with(s, s.items, env):
                yield y
        elif t is ast.FunctionDef:
            self.assign_name(s.name, self.make_func(s, env), env)
        elif t is ast.ClassDef:
            self.assign_name(s.name, self.make_class(s, env), env)
        elif t is ast.Import:
            for a in s.names:
                if a.asname:
                    self.bind(a.asname, LazyImport(a.name, None), env)
                else:
                    top = a.name.split('.')[0]
                    self.bind(top, LazyImport(top, None), env)
        elif t is ast.ImportFrom:
            mod = self.import_base(s)
            for a in s.names:
                if a.name == '*':
                    env.vars.setdefault('__star__', []).append(mod)
                else:
                    self.bind(a.asname or a.name, LazyImport(mod, a.name),
                              env)
        elif t is ast.Pass or t is ast.Global or t is ast.Nonlocal:
            pass
        elif t is ast.Break:
            raise _Break()
        elif t is ast.Continue:
            raise _Continue()
        elif t is ast.Delete:
            for tg in s.targets:
                self.delete(tg, env)
        elif t is ast.Assert:
            if not self.truth(self.eval(s.test, env)):
                self.throw('AssertionError')
        elif hasattr(ast, 'Match') and t is ast.Match:
            subj = self.eval(s.subject, env)
            for case in s.cases:
                if self.match(case.pattern, subj, env) and (
                        case.guard is None or
                        self.truth(self.eval(case.guard, env))):
                    for y in self.exec_block(case.body, env):
                        yield y
                    break
        else:
            raise Undecided('statement %s' % t.__name__)

    def match(self, p, v, env):
        t = type(p).__name__
        if t == 'MatchValue':
            return self.truth(self.compare('==', v, self.eval(p.value, env)))
        if t == 'MatchSingleton':
            return self.truth(self.compare('is', v, p.value))
        if t == 'MatchAs':
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.bind(p.name, v, env)
            return True
        if t == 'MatchOr':
            return any(self.match(q, v, env) for q in p.patterns)
        if t == 'MatchClass' and not p.patterns and not p.kwd_patterns:
            return self.truth(self.call(Ext('builtins.isinstance'),
                                        [v, self.eval(p.cls, env)], {}))
        if t == 'MatchSequence':
            if not isinstance(v, (tuple, AList)):
                return False
            items = list(v.items if isinstance(v, AList) else v)
            if any(type(q).__name__ == 'MatchStar' for q in p.patterns):
                raise Undecided('match star')
            return len(items) == len(p.patterns) and all(
                self.match(q, x, env) for q, x in zip(p.patterns, items))
        raise Undecided('match pattern')

    def import_base(self, s):
        mod = s.module or ''
        if s.level:
            m = self.stack[-1].mod
            parts = m.name.split('.')
            if not m.is_pkg:
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[:-(s.level - 1)]
            mod = '.'.join(parts + ([mod] if mod else []))
        return mod

    def exec_try(self, s, env):
        try:
            try:
                for y in self.exec_block(s.body, env):
                    yield y
            except AbstractRaise as e:
                h = self.find_handler(s.handlers, e.exc, env)
                if h is None:
                    raise
                self.facts.setdefault('__handling__', []).append(e.exc)
                if h.name:
                    self.bind(h.name, e.exc, env)
                try:
                    for y in self.exec_block(h.body, env):
                        yield y
                finally:
                    hs = self.facts.get('__handling__')
                    if hs:
                        hs.pop()
                if h.name:
                    env.vars.pop(h.name, None)
            else:
                for y in self.exec_block(s.orelse, env):
                    yield y
        finally:
            if s.finalbody:
                import sys
                et = sys.exc_info()[0]
                if et is not None and issubclass(
                        et, (Undecided, GeneratorExit)):
                    pass
                else:
                    for y in self.exec_block(s.finalbody, env):
                        yield y

    def find_handler(self, handlers, exc, env):
        for h in handlers:
            if h.type is None:
                return h
            ty = self.eval(h.type, env)
            tys = list(ty) if isinstance(ty, tuple) else [ty]
            for x in tys:
                if self.is_subclass(self.class_of(exc), x):
                    return h
        return None

    def exec_with(self, s, items, env):
        if not items:
            for y in self.exec_block(s.body, env):
                yield y
            return
        it = items[0]
        cm = self.eval(it.context_expr, env)
        self.tick(s)
        v, exit_ = self.enter(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            for y in self.exec_with(s, items[1:], env):
                yield y
        except AbstractRaise as e:
            if exit_(e.exc):
                return
            raise
        except (_Return, _Break, _Continue):
            exit_(None)
            raise
        else:
            exit_(None)

    def enter(self, cm):
        """-> (value, exit(exc)->suppress?)"""
        if isinstance(cm, AObj) and isinstance(cm.cls, AClass) \
                and cm.cls.has('__enter__'):
            v = self.call(self.getattr(cm, '__enter__'), [], {})

            def ex(exc):
                a = [None, None, None] if exc is None else \
                    [self.class_of(exc), exc, None]
                r = self.call(self.getattr(cm, '__exit__'), a, {})
                return r is True
            return v, ex
        if isinstance(cm, AObj) and cm.payload and cm.payload[0] == 'null':
            return None, lambda exc: False
        if isinstance(cm, AObj) and cm.payload and \
                cm.payload[0] == 'closing':
            thing = cm.payload[1]

            def ex(exc):
                self.call(self.getattr(thing, 'close'), [], {})
                return False
            return thing, ex
        if isinstance(cm, AObj) and cm.payload and \
                cm.payload[0] == 'ctxgen':
            gen = cm.payload[1]
            try:
                v = next(gen.it)
            except StopIteration:
                raise Undecided("contextmanager didn't yield")

            def ex(exc):
                try:
                    if exc is None:
                        next(gen.it)
                    else:
                        gen.it.throw(AbstractRaise(exc))
                except StopIteration:
                    return exc is not None
                return False
            return v, ex
        if isinstance(cm, AGen) and cm.name == 'reader':
            return cm, lambda exc: False        # pandas' TextFileReader
        if isinstance(cm, Dom):
            en = self.call_method(cm, '__enter__', [], {})

            def ex(exc):
                self.call_method(cm, '__exit__', [None, exc, None], {})
                return False
            return (cm if isinstance(en, Opq) else en), ex
        if isinstance(cm, Opq):
            return cm, lambda exc: False
        raise Undecided('with %s' % short(cm))

    # ------------------------------------------------------------ targets
    def assign_name(self, name, value, env):
        self.bind(name, value, env)

    def assign(self, t, val, env):
        if isinstance(t, ast.Name):
            self.bind(t.id, val, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, val)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env),
                         val)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if isinstance(val, Opq) and not star:
                for i, e in enumerate(t.elts):
                    self.assign(e, self.unpack_item(val, i, n), env)
                return
            vals = list(self.iterate(val))
            if star:
                i = star[0]
                after = n - i - 1
                if len(vals) < n - 1:
                    self.throw('ValueError', 'unpack')
                for e, v in zip(t.elts[:i], vals[:i]):
                    self.assign(e, v, env)
                mid = vals[i:len(vals) - after]
                self.assign(t.elts[i].value, AList(mid), env)
                for e, v in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, v, env)
                return
            if len(vals) != n:
                self.throw('ValueError', 'unpack')
            for e, v in zip(t.elts, vals):
                self.assign(e, v, env)
        else:
            raise Undecided('assign target')

    def unpack_item(self, val, i, n):
        return Opq('item', (val, i))

    def augassign(self, s, env):
        op = BINOP[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            new = self.inplace(op, old, self.eval(s.value, env))
            self.bind(t.id, new, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            new = self.inplace(op, old, self.eval(s.value, env))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            old = self.getitem(o, k)
            new = self.inplace(op, old, self.eval(s.value, env))
            self.setitem(o, k, new)
        else:
            raise Undecided('augassign')

    def inplace(self, op, a, b):
        if isinstance(a, AList) and op == '+':
            self.event('mutate', obj=a, how='+=')
            a.items.extend(list(self.iterate(b)))
            return a
        if isinstance(a, ASet) and op in '|&-':
            self.event('mutate', obj=a, how=op + '=')
            r = self.binop(op, a, b)
            if isinstance(r, ASet):
                a.items[:] = r.items
                return a
            return r
        if isinstance(a, AObj) and isinstance(a.cls, AClass):
            f = a.cls.lookup('__i%s__' % DUNDER[op])
            if f is not None:
                return self.call(ABound(f, a), [b], {})
        if isinstance(a, Dom):
            h = getattr(a, 'd_inplace', None)
            if h is not None:
                r = h(self, op, b)
                if r is not NotImplemented:
                    return r
            if isinstance(a, Opq):
                self.event('mutate', obj=a, how=op + '=')
        return self.binop(op, a, b)

    def delete(self, t, env):
        if isinstance(t, ast.Name):
            env.vars.pop(t.id, None)
        elif isinstance(t, ast.Subscript):
            self.delitem(self.eval(t.value, env), self.eval(t.slice, env))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            if isinstance(o, AObj):
                self.event('delattr', obj=o, name=t.attr)
                if t.attr not in o.fields:
                    self.throw('AttributeError', t.attr)
                del o.fields[t.attr]
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.delete(e, env)

    # ------------------------------------------------------------ defs
    def make_func(self, node, env, name=None):
        mod = self.stack[-1].mod
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = [(_missing if d is None else self.eval(d, env))
               for d in a.kw_defaults]
        cenv = env
        f = AFunc(node, mod, cenv, defaults, kwd,
                  name or getattr(node, 'name', '<lambda>'), None)
        cached = getattr(node, '_sa_locals', None)
        if cached is None:
            cached = collect_locals(node)
            node._sa_locals = cached
        ln, gl, nl, gen = cached
        args = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            args.append(a.vararg.arg)
        if a.kwarg:
            args.append(a.kwarg.arg)
        f.local_names = (frozenset(ln) | frozenset(args), gl, nl)
        f.is_gen = gen
        v = f
        for d in reversed(getattr(node, 'decorator_list', [])):
            v = self.decorate(self.eval(d, env), v, env, node)
        return v

    def decorate(self, d, v, env, node):
        if isinstance(d, Ext):
            n = d.name
            if n == 'builtins.property' or n.endswith('cached_property'):
                return AProp(v)
            if n == 'builtins.classmethod':
                return AStatic(v, 'class')
            if n == 'builtins.staticmethod':
                return AStatic(v, 'static')
            if n in ('abc.abstractmethod', 'functools.lru_cache',
                     'functools.cache', 'typing.overload'):
                return v
            if n == 'contextlib.contextmanager' and isinstance(v, AFunc):
                v.attrs['contextmanager'] = True
                return v
        return self.call(d, [v], {})

    def make_class(self, node, env):
        mod = self.stack[-1].mod
        bases = [self.eval(b, env) for b in node.bases]
        bases = [b for b in bases if isinstance(b, (AClass, Ext))] or \
            [Ext('builtins.object')]
        for k in node.keywords:
            self.eval(k.value, env)
        cenv = Env(env, None, 'class')
        cenv.vars['__module__'] = mod.name
        for st in node.body:
            try:
                for _ in self.exec_stmt(st, cenv):
                    pass
            except Undecided:
                continue
        ns = cenv.vars
        c = AClass(node.name, mod, bases, ns, node)
        self.set_owner(c, ns)
        v = c
        for d in reversed(node.decorator_list):
            dv = self.eval(d, env)
            if isinstance(dv, Ext) and dv.name == 'functools.total_ordering':
                c.ns['__total_ordering__'] = True
                continue
            v = self.call(dv, [v], {})
            if isinstance(v, Opq):
                v = c
        return v

    def set_owner(self, c, ns):
        for v in ns.values():
            for f in ((v,) if isinstance(v, AFunc) else
                      (v.func,) if isinstance(v, AStatic) else
                      (v.fget, v.fset, v.fdel) if isinstance(v, AProp)
                      else ()):
                if isinstance(f, AFunc) and f.owner is None:
                    f.owner = c

    # ------------------------------------------------------------ eval
    def eval(self, n, env):
        return getattr(self, 'e_' + type(n).__name__, self.e_unknown)(n, env)

    def e_unknown(self, n, env):
        raise Undecided('expression %s' % type(n).__name__)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Attribute(self, n, env):
        o = self.eval(n.value, env)
        self.tick(n)
        return self.getattr(o, n.attr)

    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        k = self.eval(n.slice, env)
        self.tick(n)
        return self.getitem(o, k)

    def e_Slice(self, n, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return ASlice(f(n.lower), f(n.upper), f(n.step))

    def e_Index(self, n, env):
        return self.eval(n.value, env)

    def e_Tuple(self, n, env):
        return tuple(self.eval_elts(n.elts, env))

    def e_List(self, n, env):
        return AList(self.eval_elts(n.elts, env))

    def e_Set(self, n, env):
        s = ASet()
        for v in self.eval_elts(n.elts, env):
            self.set_add(s, v)
        return s

    def eval_elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, env)))
            else:
                out.append(self.eval(e, env))
        return out

    def e_Dict(self, n, env):
        d = ADict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v, env)
                for kk, vv in self.dict_items(src):
                    self.dict_set(d, kk, vv)
            else:
                self.dict_set(d, self.eval(k, env), self.eval(v, env))
        return d

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        self.tick(n)
        return self.binop(BINOP[type(n.op)], a, b)

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            return self.not_(v)
        op = {'USub': '-', 'UAdd': '+', 'Invert': '~'}[type(n.op).__name__]
        return self.unop(op, v)

    def not_(self, v):
        return not self.truth(v)

    def unop(self, op, v):
        if isinstance(v, (bool, int, float, complex)):
            try:
                return {'-': _op.neg, '+': _op.pos, '~': _op.invert}[op](v)
            except TypeError as e:
                self.throw('TypeError', str(e))
        if isinstance(v, Dom):
            r = v.d_unop(self, op)
            if r is not NotImplemented:
                return r
        if isinstance(v, AObj) and isinstance(v.cls, AClass):
            f = v.cls.lookup({'-': '__neg__', '+': '__pos__',
                              '~': '__invert__'}[op])
            if f is not None:
                return self.call(ABound(f, v), [], {})
        if v is None or isinstance(v, (str, AList, ADict, tuple)):
            self.throw('TypeError', 'bad operand type for unary ' + op)
        return Opq('u' + op, (v,))

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.eval(x, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return self.known_bool(v, t)
            if not isand and t:
                return self.known_bool(v, t)
        return v

    def known_bool(self, v, t):
        return v

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(c, env)
            self.tick(n)
            res = self.compare(CMPOP[type(op)], left, right)
            if i == len(n.ops) - 1:
                return res
            if not self.truth(res):
                return res
            left = right
        return res

    def e_IfExp(self, n, env):
        if self.truth(self.eval(n.test, env)):
            return self.eval(n.body, env)
        return self.eval(n.orelse, env)

    def e_Lambda(self, n, env):
        return self.make_func(n, env)

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        e = env
        while e.kind == 'comp':
            e = e.parent
        self.bind(n.target.id, v, e)
        return v

    def e_Starred(self, n, env):
        raise Undecided('starred')

    def e_JoinedStr(self, n, env):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                parts.append(self.fmt(self.eval(p.value, env),
                                      self.eval(p.format_spec, env)
                                      if p.format_spec else '',
                                      chr(p.conversion)
                                      if p.conversion > 0 else ''))
        return self.strcat(parts)

    def e_FormattedValue(self, n, env):
        return self.fmt(self.eval(n.value, env), '', '')

    def fmt(self, v, spec, conv):
        if isinstance(v, SCALAR) and isinstance(spec, str):
            try:
                if conv == 'r':
                    v = repr(v)
                return format(v, spec)
            except (ValueError, TypeError) as e:
                self.throw(type(e).__name__, str(e))
        if spec in ('', None):
            return self.to_str(v, conv == 'r')
        return Opq('fmt', (v, spec))

    def literal(self, v):
        """python value of a container of scalars, or _missing"""
        if isinstance(v, SCALAR):
            return v
        if type(v) is tuple or type(v) is AList:
            out = [self.literal(x) for x in
                   (v if type(v) is tuple else v.items)]
            if any(x is _missing for x in out):
                return _missing
            return tuple(out) if type(v) is tuple else out
        if type(v) is ADict:
            out = [(self.literal(a), self.literal(b)) for a, b in v.pairs]
            if any(a is _missing or b is _missing for a, b in out):
                return _missing
            try:
                return dict(out)
            except TypeError:
                return _missing
        return _missing

    def to_str(self, v, rep=False):
        if isinstance(v, str) and not rep:
            return v
        if isinstance(v, SCALAR):
            return repr(v) if rep else str(v)
        if isinstance(v, (AList, tuple, ADict)):
            lit = self.literal(v)
            if lit is not _missing:
                return repr(lit)
        if isinstance(v, AObj) and isinstance(v.cls, AClass):
            f = None
            if not rep:
                f = v.cls.lookup('__str__')
            f = f or v.cls.lookup('__repr__')
            if f is not None:
                return self.call(ABound(f, v), [], {})
        if isinstance(v, AObj) and 'args' in v.fields and \
                isinstance(v.cls, Ext):
            a = v.fields['args']
            return self.to_str(a[0]) if len(a) == 1 else \
                Opq('str', (v,), types={'str'})
        if not rep and hasattr(v, 'd_str'):
            return v.d_str(self)
        return Opq('strcat', (v,), types={'str'})

    def strcat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Opq) and p.op == 'strcat':
                q = list(p.args)
            else:
                q = [p]
            for x in q:
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                elif x != '' or not isinstance(x, str):
                    out.append(x)
        if not out:
            return ''
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return Opq('strcat', out, types={'str'})

    def e_ListComp(self, n, env):
        return AList(self.comp(n.elt, n.generators, env))

    def e_SetComp(self, n, env):
        s = ASet()
        for v in self.comp(n.elt, n.generators, env):
            self.set_add(s, v)
        return s

    def e_GeneratorExp(self, n, env):
        first = self.iterate(self.eval(n.generators[0].iter, env))
        return AGen(self.comp(n.elt, n.generators, env, first), 'genexpr')

    def e_DictComp(self, n, env):
        d = ADict()
        pair = ast.Tuple([n.key, n.value], ast.Load())
        ast.copy_location(pair, n)
        for k, v in self.comp(pair, n.generators, env):
            self.dict_set(d, k, v)
        return d

    def comp(self, elt, gens, env, first=None):
        cenv = Env(env, None, 'comp')

        def rec(i):
            if i == len(gens):
                yield self.eval(elt, cenv)
                return
            g = gens[i]
            it = first if (i == 0 and first is not None) else \
                self.iterate(self.eval(g.iter, cenv))
            for v in it:
                self.assign(g.target, v, cenv)
                if all(self.truth(self.eval(c, cenv)) for c in g.ifs):
                    for x in rec(i + 1):
                        yield x
        return rec(0)

    def e_Await(self, n, env):
        raise Undecided('await')

    def e_Yield(self, n, env):
        raise Undecided('yield inside expression')

    def e_Call(self, n, env):
        # zero-arg super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' \
                and not n.args:
            fr = self.stack[-1]
            return Super(fr.func.owner, fr.self)
        if isinstance(n.func, ast.Name) and n.func.id == 'locals' \
                and not n.args:
            return ADict([(k, v) for k, v in env.vars.items()
                          if not isinstance(v, LazyImport)])
        f = self.eval(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        extra = None
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if isinstance(d, Opq):
                    extra = d
                    continue
                for kk, vv in self.dict_items(d):
                    if not isinstance(kk, str):
                        raise Undecided('non-constant keyword')
                    if kk in kwargs:
                        self.throw('TypeError', 'multiple values for ' + kk)
                    kwargs[kk] = vv
            else:
                v = self.eval(k.value, env)
                if k.arg in kwargs:
                    self.throw('TypeError', 'multiple values for ' + k.arg)
                kwargs[k.arg] = v
        if extra is not None:
            kwargs['**'] = extra
        self.tick(n)
        return self.call(f, args, kwargs)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = {} if kwargs is None else kwargs
        if isinstance(f, Native):
            r = f.fn(self, args, kwargs)
            if r is NotImplemented:
                if kwargs.get('inplace') is True:
                    raise Undecided('%s in place' % f.name)
                return self.opaque_call(f, args, kwargs)
            return r
        if isinstance(f, ABound):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, AFunc):
            o = self.overrides.get(f.qualname)
            if o is not None:
                r = o(self, args, kwargs)
                if r is not NotImplemented:
                    return r
            return self.call_func(f, args, kwargs)
        if isinstance(f, AStatic):
            return self.call(f.func, args, kwargs)
        if isinstance(f, AClass):
            o = self.overrides.get(f.qualname)
            if o is not None:
                r = o(self, args, kwargs)
                if r is not NotImplemented:
                    return r
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            if getattr(f, 'payload', None) is not None:
                import models as M
                return M.call_nt(self, f, args, kwargs)
            return self.call_ext(f, args, kwargs)
        if isinstance(f, AObj) and isinstance(f.cls, AClass):
            m = f.cls.lookup('__call__')
            if m is not None:
                return self.call(ABound(m, f), args, kwargs)
            if not self.has_ext_base(f.cls):
                self.throw('TypeError', 'object is not callable')
        if isinstance(f, Dom):
            if isinstance(f, Opq) and f.op == 'attr' and \
                    isinstance(f.args[1], str):
                return self.call_method(f.args[0], f.args[1], args, kwargs,
                                        opaque=True)
            r = f.d_call(self, args, kwargs)
            if r is not NotImplemented:
                return r
            return self.opaque_call(f, args, kwargs)
        if f is None or isinstance(f, SCALAR) or isinstance(
                f, (AList, ADict, ASet, tuple, AModule)):
            self.throw('TypeError', '%s is not callable' % short(f))
        raise Undecided('call %s' % short(f))

    def opaque_call(self, f, args, kwargs):
        self.event('call', fn=f, args=tuple(args), kwargs=dict(kwargs))
        self.fault(f, args, kwargs)
        return Opq('call', (f,) + tuple(args), kwargs)

    def fault(self, f, args, kwargs):
        """Fault hook: an external call may raise."""
        if self.may_raise is None or not self.recording:
            return
        excs = self.may_raise(self, f, args, kwargs)
        if excs:
            c = self.choose(1 + len(excs), 'fault@%s' % self.loc())
            if c:
                self.event('fault', exc=excs[c - 1], fn=f)
                self.throw(excs[c - 1], 'injected')

    def has_ext_base(self, c):
        return any(isinstance(b, Ext) and b.name != 'builtins.object'
                   for b in c.mro())

    def call_ext(self, f, args, kwargs):
        m = self.models.get(f.name)
        if m is not None:
            try:
                r = m(self, args, kwargs)
            except IndexError:
                ak = leading(('TM:' + f.name,), args, kwargs)
                if ak is None:
                    raise
                r = m(self, *ak)
            if r is not NotImplemented:
                return r
        if f.name.startswith('builtins.'):
            n = f.name[9:]
            cls = getattr(_b, n, None)
            if isinstance(cls, type) and issubclass(cls, BaseException):
                return AObj(f, {'args': tuple(args)})
            own = {'str.': str, 'list.': AList, 'dict.': ADict,
                   'set.': ASet}.get(n[:n.find('.') + 1])
            if own and args and isinstance(args[0], own):
                # a method asked of its class: str.lower(s) is s.lower()
                return self.call_method(args[0], n[n.find('.') + 1:],
                                        args[1:], kwargs)
        else:
            last = f.name.rsplit('.', 1)[-1]
            if (last.endswith('Error') or last.endswith('Exception')) and \
                    last[0].isupper():
                return AObj(f, {'args': tuple(args)})
        return self.opaque_call(f, args, kwargs)

    def instantiate(self, c, args, kwargs):
        o = AListSub(c) if any(
            isinstance(b, Ext) and b.name in ('builtins.list',
                                              'collections.deque')
            for b in c.mro()) else AObj(c)
        init = c.lookup('__init__')
        if isinstance(o, AListSub) and any(
                isinstance(b, Ext) and b.name == 'collections.deque'
                for b in c.mro()):
            if init is not None:
                raise Undecided('deque with __init__')
            q = self.call_ext(Ext('collections.deque'), args, kwargs)
            o.items, o.tag = q.items, q.tag
            return o
        if init is None and isinstance(o, AListSub):
            o.items = list(self.iterate(args[0])) if args else []
            return o
        if init is not None:
            self.call(ABound(init, o), args, kwargs)
        else:
            if self.has_ext_base(c):
                o.fields['args'] = tuple(args)
            elif args or kwargs:
                self.throw('TypeError', '%s() takes no arguments' % c.name)
        return o

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        posonly = {x.arg for x in a.posonlyargs}
        out = {}
        kwargs = dict(kwargs)
        opaque_kw = kwargs.pop('**', None)
        nm = f.name
        if len(args) > len(pos) and not a.vararg:
            self.throw('TypeError', '%s() takes %d positional arguments but '
                       '%d were given' % (nm, len(pos), len(args)))
        for p, v in zip(pos, args):
            out[p] = v
        if a.vararg:
            out[a.vararg.arg] = tuple(args[len(pos):])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = ADict()
        for k, v in kwargs.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in out:
                    self.throw('TypeError',
                               '%s() got multiple values for argument %r'
                               % (nm, k))
                out[k] = v
            elif a.kwarg:
                extra.pairs.append([k, v])
            else:
                self.throw('TypeError', '%s() got an unexpected keyword '
                           'argument %r' % (nm, k))
        if a.kwarg:
            out[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in out:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[p] = f.defaults[j]
                elif opaque_kw is not None:
                    out[p] = Opq('item', (opaque_kw, p))
                else:
                    self.throw('TypeError', '%s() missing required argument '
                               '%r' % (nm, p))
        for p, d in zip(kwonly, f.kwdefaults):
            if p not in out:
                if d is _missing:
                    self.throw('TypeError', '%s() missing keyword argument '
                               '%r' % (nm, p))
                out[p] = d
        return out

    def call_func(self, f, args, kwargs):
        if len(self.stack) > self.MAX_DEPTH:
            raise Undecided('depth')
        bound = self.bind_args(f, args, kwargs)
        self.analysed.add(f.qualname)
        env = Env(f.env, f.local_names[0], 'func')
        env.globals_decl = f.local_names[1]
        env.nonlocals = f.local_names[2]
        env.vars.update(bound)
        fr = Frame(f, env, f.mod, args[0] if args else None)
        if isinstance(f.node, ast.Lambda):
            self.stack.append(fr)
            try:
                return self.eval(f.node.body, env)
            finally:
                self.stack.pop()
        if f.is_gen:
            g = AGen(self.gen_run(f, fr, env), f.qualname)
            if f.attrs.get('contextmanager'):
                return AObj(Ext('contextlib._GeneratorContextManager'),
                            {}, ('ctxgen', g))
            return g
        self.stack.append(fr)
        try:
            for _ in self.exec_block(f.node.body, env):
                pass
            return None
        except _Return as r:
            return r.value
        finally:
            self.stack.pop()

    def gen_run(self, f, fr, env):
        it = self.exec_block(f.node.body, env)
        pending = None
        while True:
            self.stack.append(fr)
            try:
                try:
                    if pending is not None:
                        p, pending = pending, None
                        v = it.throw(p)
                    else:
                        v = next(it)
                except StopIteration:
                    return
                except _Return:
                    return
                except AbstractRaise as e:
                    if self.is_subclass(self.class_of(e.exc),
                                        Ext('builtins.StopIteration')):
                        # PEP 479
                        raise AbstractRaise(AObj(
                            Ext('builtins.RuntimeError'),
                            {'args': ('generator raised StopIteration',)}),
                            e.loc)
                    raise
            finally:
                if self.stack and self.stack[-1] is fr:
                    self.stack.pop()
            try:
                yield v
            except AbstractRaise as e:
                pending = e

    # ------------------------------------------------------------ attrs
    def class_of(self, v):
        if isinstance(v, (AObj, AListSub)):
            return v.cls
        if isinstance(v, (bool, int, float, str, bytes, complex)):
            return Ext('builtins.' + type(v).__name__)
        if v is None:
            return Ext('builtins.NoneType')
        if isinstance(v, tuple):
            return v.nt if isinstance(v, NTuple) else Ext('builtins.tuple')
        if isinstance(v, AList):
            return Ext('builtins.list')
        if isinstance(v, ADict):
            return Ext('builtins.dict')
        if isinstance(v, ASet):
            return Ext('builtins.frozenset' if v.frozen else 'builtins.set')
        if isinstance(v, (AFunc, ABound, Native)):
            return Ext('builtins.function')
        if isinstance(v, (AClass, Ext)):
            return Ext('builtins.type')
        if isinstance(v, AGen):
            return Ext('builtins.generator')
        if isinstance(v, Dom):
            t = v.d_getattr(self, '__class__')
            if t is not NotImplemented:
                return t
        return Opq('typeof', (v,))

    EXT_BASES = {
        'pandas.errors.EmptyDataError': ['builtins.ValueError'],
        'pandas.errors.ParserError': ['builtins.ValueError'],
        'pytz.AmbiguousTimeError': ['pytz.InvalidTimeError'],
        'pytz.NonExistentTimeError': ['pytz.InvalidTimeError'],
        'json.decoder.JSONDecodeError': ['builtins.ValueError'],
    }

    def is_subclass(self, c, t):
        if isinstance(t, tuple):
            return any(self.is_subclass(c, x) for x in t)
        if isinstance(c, AClass):
            for b in c.mro():
                if b is t:
                    return True
                if isinstance(b, Ext) and isinstance(t, Ext) and \
                        self.ext_sub(b.name, t.name):
                    return True
            return isinstance(t, Ext) and t.name == 'builtins.object'
        if isinstance(c, Ext) and isinstance(t, Ext):
            return self.ext_sub(c.name, t.name)
        return False

    def ext_sub(self, a, b):
        a = a.replace('pytz.exceptions.', 'pytz.')
        b = b.replace('pytz.exceptions.', 'pytz.')
        if a == b or b == 'builtins.object':
            return True
        pa = getattr(_b, a[9:], None) if a.startswith('builtins.') else None
        pb = getattr(_b, b[9:], None) if b.startswith('builtins.') else None
        if isinstance(pa, type) and isinstance(pb, type):
            return issubclass(pa, pb)
        plain = a[9:] if a.startswith('builtins.') else a
        if plain == (b[9:] if b.startswith('builtins.') else b):
            return True
        for x in self.EXT_BASES.get(plain, ()):
            if self.ext_sub(x, b):
                return True
        if pb in (Exception, BaseException):
            last = a.rsplit('.', 1)[-1]
            return last.endswith('Error') or last.endswith('Exception')
        return False

    def getattr(self, o, name, default=_missing):
        try:
            return self._getattr(o, name)
        except AbstractRaise as e:
            if default is not _missing and self.is_subclass(
                    self.class_of(e.exc), Ext('builtins.AttributeError')):
                return default
            raise

    def bind_class_attr(self, v, obj, cls):
        if isinstance(v, AFunc):
            return ABound(v, obj) if obj is not None else v
        if isinstance(v, AStatic):
            if v.kind == 'class':
                return ABound(v.func, cls)
            return v.func
        if isinstance(v, AProp):
            if obj is None:
                return v
            return self.call(v.fget, [obj], {})
        if isinstance(v, Native) and obj is not None:
            return ABound(v, obj)
        return v

    def _getattr(self, o, name):
        if isinstance(o, AObj):
            cls = o.cls
            if isinstance(cls, AClass):
                cv = cls.lookup(name)
                if isinstance(cv, AProp):
                    return self.call(cv.fget, [o], {})
                if name in o.fields:
                    return o.fields[name]
                if cv is not None or cls.has(name):
                    return self.bind_class_attr(cv, o, cls)
                if name == '__class__':
                    return cls
                if name == '__dict__':
                    return ObjDict(o)
                if name == '__doc__':
                    return None
                ga = cls.lookup('__getattr__')
                if ga is not None:
                    return self.call(ABound(ga, o), [name], {})
                if name == '__init__':
                    return Native(lambda I, a, k: None, 'object.__init__')
                if name == '__setattr__':
                    return Native(lambda I, a, k:
                                  I.setattr(o, a[0], a[1]), 'setattr')
                if name in ('__eq__', '__ne__', '__hash__'):
                    return Native(lambda I, a, k: a[0] is o
                                  if name == '__eq__' else
                                  Opq('hash', (o,)), name)
                if self.has_ext_base(cls):
                    ext = [b for b in cls.mro() if isinstance(b, Ext) and
                           b.name != 'builtins.object']
                    if all(self.is_exc(b) for b in ext):
                        if name == 'args':
                            return o.fields.get('args', ())
                    else:
                        return Opq('attr', (o, name))
                self.throw('AttributeError', name)
            if name in o.fields:
                return o.fields[name]
            if name == '__class__':
                return cls
            if name in ('args',):
                return o.fields.get('args', ())
            if name == 'with_traceback':
                return Native(lambda I, a, k: o, name)
            return Opq('attr', (o, name))
        if isinstance(o, AListSub):
            cv = o.cls.lookup(name)
            if name in o.fields and not isinstance(cv, AProp):
                return o.fields[name]
            if cv is not None:
                return self.bind_class_attr(cv, o, o.cls)
            if name == '__class__':
                return o.cls
        if isinstance(o, AClass):
            cv = o.lookup(name)
            if cv is not None or o.has(name):
                return self.bind_class_attr(cv, None, o)
            if name == '__name__':
                return o.name
            if name == '__mro__':
                return tuple(o.mro())
            if name == '__doc__':
                return ast.get_docstring(o.node)
            if name == '__module__':
                return o.mod.name
            if name == '__init__':
                return Native(lambda I, a, k: None, 'object.__init__')
            if self.has_ext_base(o):
                return Opq('attr', (o, name))
            self.throw('AttributeError', name)
        if isinstance(o, AModule):
            try:
                return self.module_attr(o.name, name)
            except KeyError:
                sub = o.name + '.' + name
                if sub in self.mods:
                    return AModule(sub)
                self.throw('AttributeError', name)
        if isinstance(o, Ext):
            m = self.models.get(('attr', o.name + '.' + name))
            if m is not None:
                return m(self) if callable(m) else m
            if name == '__name__':
                return o.name.rsplit('.', 1)[-1]
            if o.name == 'numpy' and name in GONE_FROM_NUMPY:
                self.throw('AttributeError', 'module numpy has no attribute '
                           '%s' % name)
            return Ext(o.name + '.' + name)
        if isinstance(o, Super):
            obj = o.obj
            mro = (obj.cls if isinstance(obj, (AObj, AListSub))
                   else obj).mro()
            i = mro.index(o.cls) if o.cls in mro else -1
            for c in mro[i + 1:]:
                if isinstance(c, AClass) and name in c.ns:
                    v = c.ns[name]
                    if isinstance(obj, AClass):
                        return self.bind_class_attr(v, None, obj)
                    return self.bind_class_attr(v, obj, obj.cls)
            if name == '__init__':
                def init(I, a, k):
                    if isinstance(obj, AListSub):
                        obj.items = list(I.iterate(a[0])) if a else []
                    elif isinstance(obj, AObj):
                        obj.fields.setdefault('args', tuple(a))
                return Native(init, 'object.__init__')
            if name == '__setattr__':
                return Native(lambda I, a, k: I.setattr(obj, a[0], a[1]), name)
            if isinstance(obj, AListSub) and \
                    ('list', name) in self.methods:
                m = self.methods[('list', name)]
                return Native(lambda I, a, k: m(I, obj, a, k), name)
            if all(not isinstance(c, Ext) or c.name == 'builtins.object'
                   for c in mro):
                self.throw('AttributeError', name)
            return Opq('attr', (obj, name))
        if isinstance(o, AFunc):
            if name == '__name__':
                return o.attrs.get('__name__', o.name)
            if name == '__doc__':
                return o.attrs.get(name)
            if name in o.attrs:
                return o.attrs[name]
            if name == '__get__':
                return Native(lambda I, a, k: ABound(o, a[0]), name)
            if name == '__code__':
                return Opq('attr', (o, name))
            self.throw('AttributeError', name)
        if isinstance(o, ABound):
            if name == '__self__':
                return o.self
            if name == '__func__':
                return o.func
            return self._getattr(o.func, name)
        if isinstance(o, AProp):
            if name in ('setter', 'getter', 'deleter'):
                def mk(I, a, k):
                    p = AProp(o.fget, o.fset, o.fdel)
                    setattr(p, {'setter': 'fset', 'getter': 'fget',
                                'deleter': 'fdel'}[name], a[0])
                    return p
                return Native(mk, name)
            if name in ('fget', 'fset'):
                return getattr(o, name)
        if isinstance(o, NTuple):
            fl = o.nt.payload[1]
            if name in fl:
                return o[fl.index(name)]
            if name == '_asdict':
                return Native(lambda I, a, k:
                              ADict(list(zip(fl, o))), name)
            if name == '_replace':
                def rep(I, a, k):
                    r = NTuple([k.get(n, v) for n, v in zip(fl, o)])
                    r.nt = o.nt
                    return r
                return Native(rep, name)
            if name == '_fields':
                return tuple(fl)
        if isinstance(o, Dom):
            if isinstance(o, Opq) and name in o.attrs:
                return o.attrs[name]
            r = o.d_getattr(self, name)
            if r is not NotImplemented:
                return r
            r = self.typed_attr(o, name)
            if r is not NotImplemented:
                return r
            return Opq('attr', (o, name))
        if isinstance(o, AGen):
            if name in ('__next__', 'next'):
                return Native(lambda I, a, k: I.next(o), name)
            if name == 'close':
                def close(I, a, k):
                    o.closed = True
                return Native(close, name)
        # builtin containers and scalars
        m = self.methods.get((self.kind_name(o), name))
        if m is not None:
            return Native(lambda I, a, k: m(I, o, a, k), name)
        if name == '__class__':
            return self.class_of(o)
        if isinstance(o, str):
            f = getattr(o, name, None)
            if f is not None:
                return Native(lambda I, a, k: I.str_method(o, name, a, k),
                              name)
        elif isinstance(o, (int, float, bool, bytes)):
            f = getattr(o, name, None)
            if f is not None:
                if not callable(f):
                    return f

                def num(I, a, k):
                    try:
                        r = f(*a)
                    except Exception as e:
                        I.throw(type(e).__name__, str(e))
                    return r
                return Native(num, name)
        if name == '__len__' and isinstance(o, (AList, ADict, ASet, tuple)):
            return Native(lambda I, a, k: I.length(o), name)
        self.throw('AttributeError', "%s has no attribute %s"
                   % (self.kind_name(o), name))

    def typed_attr(self, o, name):
        return NotImplemented

    def is_exc(self, b):
        return self.ext_sub(b.name, 'builtins.BaseException')

    def kind_name(self, o):
        if isinstance(o, AList):
            return 'list'
        if isinstance(o, ADict):
            return 'dict'
        if isinstance(o, ASet):
            return 'set'
        if isinstance(o, tuple):
            return 'tuple'
        if isinstance(o, str):
            return 'str'
        if isinstance(o, AGen):
            return 'gen'
        if isinstance(o, ASlice):
            return 'slice'
        return type(o).__name__

    def str_method(self, s, name, a, k):
        if name == 'join':
            parts = []
            for i, x in enumerate(self.iterate(a[0])):
                if not isinstance(x, (str, Opq)):
                    self.throw('TypeError', 'join: expected str')
                if i:
                    parts.append(s)
                parts.append(x)
            return self.strcat(parts)
        if name == 'format':
            return self.str_format(s, a, k)
        if all(isinstance(x, SCALAR) or isinstance(x, tuple) and all(
                isinstance(y, SCALAR) for y in x)
               for x in list(a) + list(k.values())):
            try:
                r = getattr(s, name)(*a, **k)
            except Exception as e:
                self.throw(type(e).__name__, str(e))
            if isinstance(r, list):
                return AList(r)
            return r
        return Opq('mcall', (s, name) + tuple(a), k)

    def str_format(self, s, a, k):
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(lit)
                if field is None:
                    continue
                if field == '':
                    v = a[auto]
                    auto += 1
                else:
                    base = field
                    rest = []
                    for i, ch in enumerate(field):
                        if ch in '.[':
                            base = field[:i]
                            r = field[i:]
                            if '[' in r:
                                raise Undecided('format index')
                            rest = r[1:].split('.')
                            break
                    if base.isdigit():
                        v = a[int(base)]
                    elif base == '':
                        v = a[auto]
                        auto += 1
                    else:
                        if base not in k:
                            self.throw('KeyError', base)
                        v = k[base]
                    for r in rest:
                        v = self.getattr(v, r)
                parts.append(self.fmt(v, spec or '', conv or ''))
        except IndexError:
            self.throw('IndexError', 'Replacement index out of range')
        return self.strcat(parts)

    def setattr(self, o, name, value):
        if isinstance(o, AListSub):
            o.fields[name] = value
            return
        if isinstance(o, AObj):
            if isinstance(o.cls, AClass):
                cv = o.cls.lookup(name)
                if isinstance(cv, AProp):
                    if cv.fset is None:
                        self.throw('AttributeError', "can't set " + name)
                    self.call(cv.fset, [o, value], {})
                    return
            self.event('setattr', obj=o, name=name, value=value,
                       old=o.fields.get(name, _missing))
            o.fields[name] = value
            return
        if isinstance(o, AClass):
            self.event('setclassattr', obj=o, name=name, value=value)
            o.ns[name] = value
            return
        if isinstance(o, AModule):
            self.event('setglobal', name=o.name + '.' + name, value=value)
            m = self.module(o.name)
            m.ns[name] = value
            return
        if isinstance(o, AFunc):
            o.attrs[name] = value
            return
        if isinstance(o, Dom):
            r = o.d_setattr(self, name, value)
            if r is not NotImplemented:
                return
            self.event('setattr', obj=o, name=name, value=value)
            if isinstance(o, Opq):
                o.attrs[name] = value
            return
        if isinstance(o, Ext):
            return
        if o is None or isinstance(o, SCALAR) or \
                isinstance(o, (tuple, AList, ADict, ASet)):
            self.throw('AttributeError', name)
        raise Undecided('setattr on %s' % short(o))

    # ------------------------------------------------------------ methods
    def call_method(self, o, name, args, kwargs, opaque=False):
        if not opaque:
            f = self.getattr(o, name)
            if not (isinstance(f, Opq) and f.op == 'attr'):
                return self.call(f, args, kwargs)
        if isinstance(o, Dom):
            h = getattr(o, 'd_method', None)
            if h is not None:
                r = h(self, name, args, kwargs)
                if r is not NotImplemented:
                    return r
        self.event('mcall', obj=o, name=name, args=tuple(args),
                   kwargs=dict(kwargs))
        self.fault(Opq('attr', (o, name)), args, kwargs)
        if kwargs.get('inplace') is True and isinstance(o, Opq):
            self.event('mutate', obj=o, how=name)
            o.version += 1
            return None
        if kwargs.get('inplace') is True:
            raise Undecided('%s in place' % name)
        return Opq('mcall', (o, name) + tuple(args), kwargs)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if v is None or v is False:
            return False
        if v is True:
            return True
        if isinstance(v, SCALAR):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, AList):
            return len(v.items) > 0
        if isinstance(v, ObjDict):
            return len(v.obj.fields) > 0
        if isinstance(v, ADict):
            return len(v.pairs) > 0
        if isinstance(v, ASet):
            return len(v.items) > 0
        if isinstance(v, AObj):
            if isinstance(v.cls, AClass):
                f = v.cls.lookup('__bool__')
                if f is not None:
                    r = self.call(ABound(f, v), [], {})
                    if not isinstance(r, bool) and not isinstance(r, Opq):
                        self.throw('TypeError', '__bool__ should return bool')
                    return self.truth(r)
                f = v.cls.lookup('__len__')
                if f is not None:
                    return self.truth(self.call(ABound(f, v), [], {}))
            return True
        if isinstance(v, Dom):
            r = v.d_truth(self)
            if r is not NotImplemented:
                return r
            return self.fact(v)
        return True

    def fact(self, v):
        """Branch on an opaque value; consistent within the path."""
        if isinstance(v, Opq):
            if v.op == '!=':
                return not self.fact(Opq('==', v.args))
            if v.op == 'not':
                return not self.truth(v.args[0])
            if v.op == 'strcat' and any(
                    isinstance(x, (AList, ADict, ASet, tuple, AObj)) or
                    isinstance(x, str) and x for x in v.args):
                return True
            if v.op == '<=':
                return not self.fact(Opq('<', (v.args[1], v.args[0])))
            if v.op == 'is not':
                return not self.fact(Opq('is', v.args))
            if v.op == 'not in':
                return not self.fact(Opq('in', v.args))
            if v.op == '==':
                # symmetric
                a, b = v.args
                if repr(key_of(a)) > repr(key_of(b)):
                    v = Opq('==', (b, a))
        k = ('T', v.d_key())
        if k not in self.facts:
            kn = ('N', v.d_key())
            if self.facts.get(kn):
                self.facts[k] = False
            else:
                self.facts[k] = not self.choose(2, short(v, 70))
            self.truth_log.append((v, self.facts[k], self.loc()))
        return self.facts[k]

    def is_none(self, v):
        if v is None:
            return True
        if isinstance(v, Opq):
            if v.types or v.op in ('strcat', '==', '<', '<=', '!=', 'list',
                                   '+', '-', '*', '/', '&', '|', 'u-', 'u~',
                                   'fresh', 'typeof', 'elem'):
                return False
            if v.op == 'call' and isinstance(v.args[0], Ext) and \
                    v.args[0].name.rsplit('.', 1)[-1][:1].isupper():
                return False
            k = ('N', v.d_key())
            if k not in self.facts:
                if self.facts.get(('T', v.d_key())):
                    self.facts[k] = False
                else:
                    self.facts[k] = not self.choose(
                        2, 'isNone ' + short(v, 60)) if \
                        self.opaque_may_be_none(v) else False
            return self.facts[k]
        return False

    def opaque_may_be_none(self, v):
        return True

    # ------------------------------------------------------------ compare
    def compare(self, op, a, b):
        if op == 'is':
            return self.is_(a, b)
        if op == 'is not':
            r = self.is_(a, b)
            return (not r) if isinstance(r, bool) else Opq('is not', r.args)
        if op == 'in':
            return self.contains(b, a)
        if op == 'not in':
            r = self.contains(b, a)
            return (not r) if isinstance(r, bool) else self.invert_bool(r)
        if op == '!=':
            h = self.special_compare('!=', a, b)
            if h is not NotImplemented:
                return h
            r = self.compare('==', a, b)
            return (not r) if isinstance(r, bool) else self.invert_bool(r)
        return self._compare(op, a, b)

    def invert_bool(self, r):
        if isinstance(r, Opq) and r.op == '==':
            return Opq('!=', r.args)
        if isinstance(r, Opq) and r.op == 'in':
            return Opq('not in', r.args)
        return Opq('not', (r,))

    def special_compare(self, op, a, b):
        if isinstance(a, AObj) and isinstance(a.cls, AClass):
            f = a.cls.lookup('__ne__')
            if f is not None:
                return self.call(ABound(f, a), [b], {})
        if isinstance(a, Dom):
            r = a.d_compare(self, op, b, False)
            if r is not NotImplemented:
                return r
        if isinstance(b, Dom):
            r = b.d_compare(self, op, a, True)
            if r is not NotImplemented:
                return r
        return NotImplemented

    def is_(self, a, b):
        if b is None or a is None:
            return self.is_none(a if b is None else b)
        if isinstance(a, SCALAR) and isinstance(b, SCALAR):
            if isinstance(a, bool) or isinstance(b, bool):
                return a is b
            return a == b and type(a) is type(b)
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        if a is b:
            return True
        if isinstance(a, Opq) or isinstance(b, Opq):
            if key_of(a) == key_of(b):
                return True
            for x in (a, b):
                if isinstance(x, Opq) and x.op in ('fresh', 'typeof') or \
                        isinstance(x, (AList, ADict, AObj)):
                    o = b if x is a else a
                    if isinstance(o, Opq) and o.op == 'sym' or \
                            isinstance(x, (AList, ADict, AObj)):
                        return False
            for x, o in ((a, b), (b, a)):
                if isinstance(x, Opq) and x.types == {'str'} and \
                        isinstance(o, Ext) and o.name == 'pandas.NaT':
                    return False
            return Opq('is', (a, b))
        if isinstance(a, Dom):
            r = a.d_compare(self, 'is', b, False)
            if r is not NotImplemented:
                return r
        if isinstance(b, Dom):
            r = b.d_compare(self, 'is', a, True)
            if r is not NotImplemented:
                return r
        return False

    def _compare(self, op, a, b):
        if isinstance(a, Dom) or isinstance(b, Dom):
            if isinstance(a, Dom):
                r = a.d_compare(self, op, b, False)
                if r is not NotImplemented:
                    return r
            if isinstance(b, Dom):
                r = b.d_compare(self, FLIP.get(op, op), a, True)
                if r is not NotImplemented:
                    return r
        if isinstance(a, AObj) and isinstance(a.cls, AClass):
            r = self.obj_compare(op, a, b)
            if r is not NotImplemented:
                return r
        if isinstance(b, AObj) and isinstance(b.cls, AClass):
            r = self.obj_compare(FLIP[op], b, a)
            if r is not NotImplemented:
                return r
        if op == '==':
            return self.eq(a, b)
        # orderings
        if isinstance(a, SCALAR) and isinstance(b, SCALAR):
            try:
                return PYOP[op](a, b)
            except TypeError as e:
                self.throw('TypeError', str(e))
        if isinstance(a, (tuple, AList)) and isinstance(b, (tuple, AList)):
            xs = list(a) if isinstance(a, tuple) else a.items
            ys = list(b) if isinstance(b, tuple) else b.items
            for x, y in zip(xs, ys):
                if not self.truth(self.compare('==', x, y)):
                    return self.compare(op, x, y)
            return PYOP[op](len(xs), len(ys))
        if isinstance(a, ASet) and isinstance(b, ASet):
            sub = lambda p, q: all(self.truth(self.contains(q, x))
                                   for x in p.items)
            if op == '<=':
                return sub(a, b)
            if op == '>=':
                return sub(b, a)
            if op == '<':
                return sub(a, b) and not sub(b, a)
            return sub(b, a) and not sub(a, b)
        if isinstance(a, Opq) or isinstance(b, Opq):
            if a is None or b is None:
                self.throw('TypeError', 'ordering with None')
            if op == '>':
                return Opq('<', (b, a))
            if op == '>=':
                return Opq('<=', (b, a))
            return Opq(op, (a, b))
        self.throw('TypeError', '%s not supported between %s and %s'
                   % (op, self.kind_name(a), self.kind_name(b)))

    def obj_compare(self, op, a, b):
        f = a.cls.lookup(CMPDUNDER[op])
        if f is not None:
            r = self.call(ABound(f, a), [b], {})
            if isinstance(r, Ext) and r.name == 'builtins.NotImplemented':
                return NotImplemented
            return r
        if op in ('<', '<=', '>', '>=') and a.cls.has('__total_ordering__'):
            have = [o for o in ('<', '<=', '>', '>=')
                    if a.cls.has(CMPDUNDER[o])]
            if have:
                h = have[0]
                base = self.truth(self.obj_compare(h, a, b))
                eq = lambda: self.truth(self.compare('==', a, b))
                if h == '<':
                    return {'<=': lambda: base or eq(),
                            '>': lambda: not base and not eq(),
                            '>=': lambda: not base}[op]()
                if h == '<=':
                    return {'<': lambda: base and not eq(),
                            '>': lambda: not base,
                            '>=': lambda: not base or eq()}[op]()
                if h == '>':
                    return {'>=': lambda: base or eq(),
                            '<': lambda: not base and not eq(),
                            '<=': lambda: not base}[op]()
                if h == '>=':
                    return {'>': lambda: base and not eq(),
                            '<=': lambda: not base or eq(),
                            '<': lambda: not base}[op]()
        return NotImplemented

    def eq(self, a, b):
        if a is b and not isinstance(a, Dom):
            return True
        if isinstance(a, NTuple) or isinstance(b, NTuple):
            if not (isinstance(a, tuple) and isinstance(b, tuple)):
                if not (isinstance(a, Opq) or isinstance(b, Opq)):
                    return False
        if isinstance(a, SCALAR) and isinstance(b, SCALAR):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.all_eq(zip(a, b))
        if isinstance(a, AList) and isinstance(b, AList):
            if len(a.items) != len(b.items):
                return False
            return self.all_eq(zip(a.items, b.items))
        if isinstance(a, ASet) and isinstance(b, ASet):
            return len(a.items) == len(b.items) and all(
                self.truth(self.contains(b, x)) for x in a.items)
        if isinstance(a, ADict) and isinstance(b, ADict):
            pa, pb = self.dict_items(a), self.dict_items(b)
            if len(pa) != len(pb):
                return False
            for k, v in pa:
                w = self.dict_get(b, k, _missing)
                if w is _missing or not self.truth(
                        self.compare('==', v, w)):
                    return False
            return True
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        if isinstance(a, Opq) or isinstance(b, Opq):
            if key_of(a) == key_of(b):
                return True
            if a is None or b is None:
                return self.is_none(b if a is None else a)
            return Opq('==', (a, b))
        if isinstance(a, Val) and isinstance(b, Val) and \
                not isinstance(a, AObj):
            return a is b
        return False

    def all_eq(self, pairs):
        for x, y in pairs:
            if not self.truth(self.compare('==', x, y)):
                return False
        return True

    # ------------------------------------------------------------ binop
    def binop(self, op, a, b):
        if isinstance(a, SCALAR) and isinstance(b, SCALAR):
            try:
                return PYOP[op](a, b)
            except Exception as e:
                self.throw(type(e).__name__, str(e))
        if isinstance(a, str) and op == '%':
            return self.percent(a, b)
        if isinstance(a, Dom):
            r = a.d_binop(self, op, b, False)
            if r is not NotImplemented:
                return r
        if isinstance(b, Dom):
            r = b.d_binop(self, op, a, True)
            if r is not NotImplemented:
                return r
        if isinstance(a, AObj) and isinstance(a.cls, AClass):
            f = a.cls.lookup('__%s__' % DUNDER[op])
            if f is not None:
                return self.call(ABound(f, a), [b], {})
        if isinstance(b, AObj) and isinstance(b.cls, AClass):
            f = b.cls.lookup('__r%s__' % DUNDER[op])
            if f is not None:
                return self.call(ABound(f, b), [a], {})
        if op == '+':
            if isinstance(a, AList) and isinstance(b, AList):
                return AList(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return tuple(a) + tuple(b)
            if isinstance(a, (str, Opq)) and isinstance(b, (str, Opq)):
                def isstr(x):
                    return isinstance(x, str) or (
                        isinstance(x, Opq) and (x.op == 'strcat' or
                                                x.types == {'str'}))
                if isstr(a) or isstr(b):
                    return self.strcat([a, b])
            if isinstance(a, (str, AList, tuple)) and not isinstance(
                    b, Opq) or isinstance(b, (str, AList, tuple)) and \
                    not isinstance(a, Opq):
                if not isinstance(a, Dom) and not isinstance(b, Dom):
                    self.throw('TypeError', 'cannot add')
        if op == '*':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, AList) and isinstance(y, int):
                    return AList(x.items * y)
                if isinstance(x, tuple) and isinstance(y, int):
                    return tuple(x) * y
        if isinstance(a, ASet) and isinstance(b, ASet):
            return self.set_op(op, a, b)
        if isinstance(a, ADict) and isinstance(b, ADict) and op == '|':
            d = ADict(a.pairs)
            for k, v in b.pairs:
                self.dict_set(d, k, v)
            return d
        if a is None or b is None:
            self.throw('TypeError', 'unsupported operand None for ' + op)
        return Opq(op, (a, b))

    def set_op(self, op, a, b):
        inn = lambda s, x: self.truth(self.contains(s, x))
        if op == '|':
            r = ASet(a.items)
            for x in b.items:
                self.set_add(r, x)
            return r
        if op == '&':
            return ASet([x for x in a.items if inn(b, x)])
        if op == '-':
            return ASet([x for x in a.items if not inn(b, x)])
        if op == '^':
            return ASet([x for x in a.items if not inn(b, x)] +
                        [x for x in b.items if not inn(a, x)])
        raise Undecided('set op')

    def percent(self, s, v):
        import re
        if isinstance(v, ADict):
            d = dict(self.dict_items(v))
            args = None
        else:
            args = list(v) if isinstance(v, tuple) else [v]
        parts = []
        pos = 0
        i = 0
        for m in re.finditer(r'%(?:\((\w+)\))?[-+ #0]*[\d.]*([a-zA-Z%])', s):
            parts.append(s[pos:m.start()])
            pos = m.end()
            if m.group(2) == '%':
                parts.append('%')
                continue
            if m.group(1) is not None and args is None:
                x = d.get(m.group(1))
            else:
                if args is None:
                    x = v
                else:
                    if i >= len(args):
                        self.throw('TypeError', 'not enough arguments')
                    x = args[i]
                    i += 1
            if isinstance(x, SCALAR):
                try:
                    parts.append(('%' + m.group(0)[-1 if m.group(1) else 1:])
                                 % x if not m.group(1) else
                                 ('%' + m.group(2)) % x)
                except Exception as e:
                    self.throw(type(e).__name__, str(e))
            else:
                parts.append(self.to_str(x))
        parts.append(s[pos:])
        if args is not None and i < len(args) and len(args) > 1:
            self.throw('TypeError', 'not all arguments converted')
        return self.strcat(parts)

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        if isinstance(o, (AList, tuple, str)):
            seq = o.items if isinstance(o, AList) else o
            if isinstance(k, ASlice):
                if all(x is None or isinstance(x, int)
                       for x in (k.start, k.stop, k.step)):
                    r = seq[slice(k.start, k.stop, k.step)]
                    return AList(r) if isinstance(o, AList) else \
                        (tuple(r) if isinstance(o, tuple) else r)
                return Opq('item', (o, Opq('slice', (k.start, k.stop,
                                                     k.step))))
            if isinstance(k, (bool, int)):
                try:
                    return seq[k]
                except IndexError:
                    self.throw('IndexError', 'index out of range')
            if isinstance(k, Opq):
                return self.opaque_index(o, seq, k)
            self.throw('TypeError', 'indices must be integers')
        if isinstance(o, ADict):
            v = self.dict_get(o, k, _missing)
            if v is _missing:
                if o.default is not None:
                    v = self.call(o.default, [], {})
                    if o.tag != 'Counter':
                        self.dict_set(o, k, v)
                    return v
                self.throw('KeyError', k)
            return v
        if isinstance(o, AObj) and isinstance(o.cls, AClass):
            f = o.cls.lookup('__getitem__')
            if f is not None:
                return self.call(ABound(f, o), [k], {})
            if self.has_ext_base(o.cls):
                return Opq('item', (o, k))
            self.throw('TypeError', 'not subscriptable')
        if isinstance(o, Dom):
            r = o.d_getitem(self, k)
            if r is not NotImplemented:
                return r
            if isinstance(k, ASlice):
                k = Opq('slice', (k.start, k.stop, k.step))
            self.event('getitem', obj=o, key=k)
            self.fault(Opq('attr', (o, '__getitem__')), [k], {})
            return Opq('item', (o, k))
        if isinstance(o, (AClass, Ext)):
            return o
        if o is None or isinstance(o, (int, float, bool, ASet, AGen, AFunc)):
            self.throw('TypeError', 'not subscriptable')
        raise Undecided('getitem %s' % short(o))

    def opaque_index(self, o, seq, k):
        return Opq('item', (o, k))

    def setitem(self, o, k, v):
        if isinstance(o, AList):
            self.event('mutate', obj=o, how='setitem', key=k, value=v)
            if isinstance(k, ASlice):
                if all(x is None or isinstance(x, int)
                       for x in (k.start, k.stop, k.step)):
                    o.items[slice(k.start, k.stop, k.step)] = \
                        list(self.iterate(v))
                    return
                raise Undecided('slice assign')
            if isinstance(k, int):
                try:
                    o.items[k] = v
                except IndexError:
                    self.throw('IndexError', 'assignment index out of range')
                return
            raise Undecided('list index')
        if isinstance(o, ADict):
            self.event('mutate', obj=o, how='setitem', key=k, value=v)
            self.dict_set(o, k, v)
            return
        if isinstance(o, AObj) and isinstance(o.cls, AClass):
            f = o.cls.lookup('__setitem__')
            if f is not None:
                self.call(ABound(f, o), [k, v], {})
                return
        if isinstance(o, Dom):
            r = o.d_setitem(self, k, v)
            if r is not NotImplemented:
                return
            if isinstance(k, ASlice):
                k = Opq('slice', (k.start, k.stop, k.step))
            self.event('mutate', obj=o, how='setitem', key=k, value=v)
            if isinstance(o, Opq):
                o.version += 1
            return
        self.throw('TypeError', 'item assignment')

    def delitem(self, o, k):
        self.event('mutate', obj=o, how='delitem', key=k)
        if isinstance(o, AList) and isinstance(k, int):
            try:
                del o.items[k]
            except IndexError:
                self.throw('IndexError', 'del')
            return
        if isinstance(o, AList) and isinstance(k, ASlice) and all(
                x is None or isinstance(x, int)
                for x in (k.start, k.stop, k.step)):
            del o.items[slice(k.start, k.stop, k.step)]
            return
        if isinstance(o, ADict):
            if not self.dict_del(o, k):
                self.throw('KeyError', k)
            return
        if isinstance(o, Dom):
            r = o.d_delitem(self, k)
            if r is NotImplemented and isinstance(o, Opq):
                o.version += 1
            return
        if isinstance(o, AObj) and isinstance(o.cls, AClass):
            f = o.cls.lookup('__delitem__')
            if f is not None:
                self.call(ABound(f, o), [k], {})
                return
        raise Undecided('delitem')

    # dict helpers
    def key_eq(self, a, b):
        if isinstance(a, SCALAR) and isinstance(b, SCALAR):
            return a == b
        return self.truth(self.compare('==', a, b))

    def unhashable(self, k):
        if isinstance(k, (AList, ADict)) or isinstance(k, ASet) and \
                not k.frozen:
            self.throw('TypeError', 'unhashable type')

    def dict_items(self, d):
        if isinstance(d, ObjDict):
            return [(k, v) for k, v in d.obj.fields.items()]
        if isinstance(d, ADict):
            return [(k, v) for k, v in d.pairs]
        if d is None:
            self.throw('TypeError', 'None is not a mapping')
        if isinstance(d, Dom):
            h = getattr(d, 'd_items', None)
            if h:
                return h(self)
        raise Undecided('dict items of %s' % short(d))

    def dict_get(self, d, k, default=None):
        self.unhashable(k)
        if isinstance(d, ObjDict):
            return d.obj.fields.get(k, default)
        for p in d.pairs:
            if self.key_eq(p[0], k):
                return p[1]
        return default

    def dict_set(self, d, k, v):
        self.unhashable(k)
        if isinstance(d, ObjDict):
            self.event('setattr', obj=d.obj, name=k, value=v,
                       old=d.obj.fields.get(k))
            d.obj.fields[k] = v
            return
        for p in d.pairs:
            if self.key_eq(p[0], k):
                p[1] = v
                return
        d.pairs.append([k, v])

    def dict_del(self, d, k):
        if isinstance(d, ObjDict):
            return d.obj.fields.pop(k, _missing) is not _missing
        for i, p in enumerate(d.pairs):
            if self.key_eq(p[0], k):
                del d.pairs[i]
                return True
        return False

    def set_add(self, s, v):
        self.unhashable(v)
        for x in s.items:
            if self.key_eq(x, v):
                return
        s.items.append(v)

    def contains(self, c, x):
        if isinstance(c, (AList, tuple)):
            for y in (c.items if isinstance(c, AList) else c):
                if y is x or self.truth(self.compare('==', y, x)):
                    return True
            return False
        if isinstance(c, ASet):
            self.unhashable(x)
            for y in c.items:
                if y is x or self.key_eq(y, x):
                    return True
            return False
        if isinstance(c, ADict):
            return self.dict_get(c, x, _missing) is not _missing
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, Opq):
                return Opq('in', (x, c))
            self.throw('TypeError', 'in <string> requires string')
        if isinstance(c, AObj) and isinstance(c.cls, AClass):
            f = c.cls.lookup('__contains__')
            if f is not None:
                return self.truth(self.call(ABound(f, c), [x], {}))
            if c.cls.has('__iter__') or c.cls.has('__getitem__'):
                for y in self.iterate(c):
                    if y is x or self.truth(self.compare('==', y, x)):
                        return True
                return False
        if isinstance(c, Dom):
            r = c.d_contains(self, x)
            if r is not NotImplemented:
                return r
            return Opq('in', (x, c))
        if isinstance(c, AGen):
            for y in self.iterate(c):
                if self.truth(self.compare('==', y, x)):
                    return True
            return False
        self.throw('TypeError', 'argument is not iterable')

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        """Python iterator over abstract values."""
        if isinstance(v, AList):
            return self._iter_list(v)
        if isinstance(v, (tuple, str)):
            return iter(v)
        if isinstance(v, ADict):
            return iter([k for k, _ in self.dict_items(v)])
        if isinstance(v, ASet):
            return iter(list(v.items))
        if isinstance(v, AGen):
            return v.it
        if isinstance(v, AObj) and isinstance(v.cls, AClass):
            f = v.cls.lookup('__iter__')
            if f is not None:
                return self.iterate(self.call(ABound(f, v), [], {}))
            if v.cls.lookup('__next__') is not None:
                return self._iter_next(v)
            f = v.cls.lookup('__getitem__')
            if f is not None:
                return self._iter_getitem(v)
            self.throw('TypeError', 'object is not iterable')
        if isinstance(v, Dom):
            r = v.d_iter(self)
            if r is not NotImplemented:
                return iter(r)
            return self._iter_opaque(v)
        if v is None or isinstance(v, SCALAR):
            self.throw('TypeError', '%s object is not iterable'
                       % type(v).__name__)
        raise Undecided('iterate %s' % short(v))

    def _iter_next(self, v):
        while True:
            try:
                yield self.call(self.getattr(v, '__next__'), [], {})
            except AbstractRaise as e:
                if self.is_subclass(self.class_of(e.exc),
                                    Ext('builtins.StopIteration')):
                    return
                raise

    def _iter_getitem(self, v):
        i = 0
        while True:
            try:
                x = self.getitem(v, i)
            except AbstractRaise as e:
                if self.is_subclass(self.class_of(e.exc),
                                    Ext('builtins.IndexError')):
                    return
                raise
            yield x
            i += 1
            if i > 50:
                raise Undecided('getitem iteration')

    def _iter_list(self, l):
        i = 0
        while i < len(l.items):
            yield l.items[i]
            i += 1
            if i > 100000:
                raise Undecided('growing list')

    def _iter_opaque(self, v):
        k = ('len', v.d_key())
        if k not in self.facts:
            c = self.choose(len(self.ITER_CHOICES),
                            'len ' + short(v, 50))
            self.facts[k] = self.ITER_CHOICES[c]
        n = self.facts[k]
        for i in range(n):
            yield Opq('elem', (v, i))

    def next(self, v, default=_missing):
        if isinstance(v, AGen):
            try:
                return next(v.it)
            except StopIteration:
                if default is not _missing:
                    return default
                self.throw('StopIteration')
        if isinstance(v, AObj) and isinstance(v.cls, AClass) and \
                v.cls.has('__next__'):
            return self.call(self.getattr(v, '__next__'), [], {})
        if isinstance(v, Dom):
            h = getattr(v, 'd_next', None)
            if h:
                return h(self, default)
            # number of next() calls so far distinguishes the elements
            k = ('nxt', v.d_key())
            n = self.facts.get(k, 0)
            self.facts[k] = n + 1
            if self.choose(2, 'next(%s)#%d' % (short(v, 40), n)):
                if default is not _missing:
                    return default
                self.throw('StopIteration')
            return Opq('elem', (v, n))
        self.throw('TypeError', 'not an iterator')

    def length(self, v):
        if isinstance(v, (tuple, str, bytes)):
            return len(v)
        if isinstance(v, (AList, ASet)):
            return len(v.items)
        if isinstance(v, ADict):
            return len(self.dict_items(v))
        if isinstance(v, AObj) and isinstance(v.cls, AClass):
            f = v.cls.lookup('__len__')
            if f is not None:
                return self.call(ABound(f, v), [], {})
            if not self.has_ext_base(v.cls):
                self.throw('TypeError', 'object has no len()')
        if isinstance(v, Dom):
            r = v.d_len(self)
            if r is not NotImplemented:
                return r
            return Opq('len', (v,))
        self.throw('TypeError', 'object has no len()')

    # ------------------------------------------------------------ deepcopy
    def deepcopy(self, v, memo=None):
        memo = {} if memo is None else memo
        if isinstance(v, SCALAR) or isinstance(
                v, (AFunc, AClass, Ext, AModule, Native, ABound)):
            return v
        if id(v) in memo:
            return memo[id(v)][1]
        if isinstance(v, tuple):
            t = [self.deepcopy(x, memo) for x in v]
            if isinstance(v, NTuple):
                r = NTuple(t)
                r.nt = v.nt
                return r
            return tuple(t)
        if isinstance(v, AList):
            r = AListSub(v.cls) if isinstance(v, AListSub) else AList()
            r.tag = v.tag
            memo[id(v)] = (v, r)
            r.items = [self.deepcopy(x, memo) for x in v.items]
            return r
        if isinstance(v, ADict):
            r = ADict(default=v.default, tag=v.tag)
            memo[id(v)] = (v, r)
            r.pairs = [[self.deepcopy(k, memo), self.deepcopy(x, memo)]
                       for k, x in self.dict_items(v)]
            return r
        if isinstance(v, ASet):
            return ASet([self.deepcopy(x, memo) for x in v.items], v.frozen)
        if isinstance(v, AObj):
            if isinstance(v.cls, AClass) and v.cls.has('__deepcopy__'):
                return self.call(self.getattr(v, '__deepcopy__'),
                                 [ADict()], {})
            r = AObj(v.cls, {}, v.payload)
            memo[id(v)] = (v, r)
            for k, x in v.fields.items():
                r.fields[k] = self.deepcopy(x, memo)
            return r
        if isinstance(v, Opq):
            r = Opq(v.op, v.args, v.kwargs, v.types, v.site)
            r.version = v.version
            if v.op == 'fresh':
                r.uid = v.uid
            memo[id(v)] = (v, r)
            r.attrs = {k: self.deepcopy(x, memo)
                       for k, x in v.attrs.items()}
            return r
        if isinstance(v, Dom):
            r = v.d_deepcopy(self, memo)
            memo[id(v)] = (v, r)
            return r
        if isinstance(v, AGen):
            self.throw('TypeError', 'cannot pickle generator object')
        return v

    def copy(self, v):
        if isinstance(v, AList):
            return AList(v.items, v.tag)
        if isinstance(v, ADict):
            return ADict(self.dict_items(v), v.default, v.tag)
        if isinstance(v, ASet):
            return ASet(v.items, v.frozen)
        if isinstance(v, AObj):
            if isinstance(v.cls, AClass) and v.cls.has('__copy__'):
                return self.call(self.getattr(v, '__copy__'), [], {})
            return AObj(v.cls, dict(v.fields), v.payload)
        if isinstance(v, Opq):
            r = Opq(v.op, v.args, v.kwargs, v.types, v.site)
            r.version = v.version
            r.attrs = dict(v.attrs)
            return r
        return v


def drain(gen):
    """all values of an AGen or AList as a python list"""
    if isinstance(gen, AGen):
        return list(gen.it)
    if isinstance(gen, AList):
        return list(gen.items)
    if isinstance(gen, tuple):
        return list(gen)
    return None
