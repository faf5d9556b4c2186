"""C16 - every name, attribute, module path, call and format string the code
uses exists and is used with the arguments it takes.  Scope-aware name
resolution of every module of the package; paths into installed libraries and
the signatures of their functions are looked up in the installed libraries
(the code under analysis is not imported)."""
import ast
import builtins
import json
import os
import string
import subprocess
import symtable
import warnings

from names import Names, locals_of

MIN_OBLIGATIONS = 1500
EXPLANATION = __doc__
ASSUMPTIONS = [
    'the interpreter and libraries the code runs on are those of '
    '/opt/venv; packages that are not installed there are taken to provide '
    'what is asked of them',
    'code under a try that catches the failure, or under a hasattr or '
    'version test, handles the absence itself',
    'a class that sets attributes by computed names, or inherits from a '
    'class that is not known, may have any attribute',
    'an attribute stored on any object anywhere in the package may exist on '
    'objects that are not self']
LIMITS = ('Attributes of values (rather than of modules, self and classes) '
          'are only checked for existing anywhere at all: a method that one '
          'class lacks and another has is not seen, unless another property '
          'interprets the call.')
PY = '/opt/venv/bin/python'
PROBE = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'libprobe.py')
IMPLICIT = {'__file__', '__name__', '__doc__', '__path__', '__package__',
            '__spec__', '__loader__', '__builtins__', '__class__',
            '__module__', '__qualname__', '__annotations__', '__dict__'}
SAVE = ('Exception', 'BaseException', 'NameError', 'AttributeError',
        'ImportError', 'ModuleNotFoundError', 'TypeError')
GONE = {('pandas.date_range', 'closed'),
        ('pandas.bdate_range', 'closed')}   # absorbed by **kwargs, then fails
LAZY = ('map', 'filter', 'zip', 'reversed', 'enumerate')
REMOVED = {'ix', 'iteritems', 'itervalues', 'iterkeys', 'has_key',
           'as_matrix', 'iterkv', 'convert_objects', 'sortlevel'}
INDEXERS = ('ix', 'iloc', 'loc', 'at', 'iat')
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def skip(m):
    return ('.tests' in m or m.endswith('.test') or '.test_' in m or
            m.startswith('tests'))


def absolute(m, path, n):
    base = n.module or ''
    if n.level:
        parts = m.split('.')
        if not path.endswith('__init__.py'):
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        base = '.'.join(parts + ([n.module] if n.module else []))
    return base


def symbols(path):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with open(path, newline=None) as f:
            return symtable.symtable(f.read(), path, 'exec')


class Site(object):
    """one occurrence: module, enclosing definition, line, guarded"""
    def __init__(self, m, q, line, guarded):
        self.m, self.q, self.line, self.guarded = m, q, line, guarded


class Lint(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.pr = ctx.project
        self.N = Names(self.pr)
        self.mods = self.pr.modules
        self.dotted = {}
        self.imports = {}
        self.calls = []          # (dotted, Call, Site)
        self.methods = []        # names called or subscripted on values
        self.stored = set()
        self.classes = {}
        self.outside = set()     # attributes stored on anything but self

    # -- module namespaces
    def namespace(self, m, seen=()):
        """global names of a module, or None when a star import of a package
        that is not part of the repository adds unknown ones"""
        path, tree = self.mods[m]
        names = set()
        st = symbols(path)
        for s in st.get_symbols():
            if s.is_assigned() or s.is_imported() or s.is_namespace():
                names.add(s.get_name())

        def globs(t):
            for s in t.get_symbols():
                if s.is_declared_global() and (s.is_assigned() or
                                               s.is_imported()):
                    names.add(s.get_name())
            for c in t.get_children():
                globs(c)
        globs(st)
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and any(
                    a.name == '*' for a in n.names):
                base = absolute(m, path, n)
                if base in self.mods:
                    if base not in seen + (m,):
                        sub = self.namespace(base, seen + (m,))
                        if sub is None:
                            return None
                        names |= {x for x in sub if not x.startswith('_')}
                elif base in self.star:
                    names |= set(self.star[base])
                else:
                    return None
        for k in self.mods:
            if k.startswith(m + '.'):
                names.add(k[len(m) + 1:].split('.')[0])
        return names

    # -- collection
    def guards(self, tree):
        """ids of nodes whose failure is handled on the spot"""
        out = set()

        def mark(n):
            for c in ast.walk(n):
                out.add(id(c))

        for n in ast.walk(tree):
            if isinstance(n, ast.Try):
                names = set()
                for h in n.handlers:
                    if h.type is None:
                        names.add('Exception')
                    for e in ast.walk(h.type) if h.type else []:
                        if isinstance(e, ast.Name):
                            names.add(e.id)
                        elif isinstance(e, ast.Attribute):
                            names.add(e.attr)
                if names & set(SAVE):
                    for b in n.body:
                        mark(b)
            elif isinstance(n, (ast.If, ast.IfExp)):
                t = ast.dump(n.test)
                if "'hasattr'" in t or "'version_info'" in t or \
                        "'__version__'" in t or "'getattr'" in t or \
                        "'PY2'" in t or "'PY3'" in t:
                    for b in (n.body if isinstance(n.body, list)
                              else [n.body]):
                        mark(b)
                    for b in (n.orelse if isinstance(n.orelse, list)
                              else [n.orelse]):
                        mark(b)
        return out

    def collect(self):
        for m, (path, tree) in sorted(self.mods.items()):
            for n in ast.walk(tree):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store):
                    self.stored.add(n.attr)
                    if not (isinstance(n.value, ast.Name) and
                            n.value.id in ('self', 'cls')):
                        self.outside.add(n.attr)
                elif isinstance(n, FN + (ast.ClassDef,)):
                    self.stored.add(n.name)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.stored.add(n.id)
                elif isinstance(n, ast.arg):
                    self.stored.add(n.arg)
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Name) and n.func.id in ('namedtuple',
                                                            'setattr'):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Constant) and isinstance(
                                x.value, str):
                            self.stored |= set(
                                x.value.replace(',', ' ').split())
                elif isinstance(n, ast.keyword) and n.arg:
                    self.stored.add(n.arg)
            if skip(m):
                continue
            guarded = self.guards(tree)
            self.scan(m, path, tree, guarded)

    def scan(self, m, path, tree, guarded):
        def rec(n, local, res, q):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, FN):
                    for d in c.decorator_list + c.args.defaults + [
                            x for x in c.args.kw_defaults if x]:
                        rec(ast.Expr(d), local, res, q)
                    l2 = local | locals_of(c)
                    body = ast.Module(body=c.body, type_ignores=[])
                    rec(body, l2, self.N.resolver(m, l2), q + [c.name])
                    continue
                if isinstance(c, ast.Lambda):
                    l2 = local | {a.arg for a in c.args.args +
                                  c.args.kwonlyargs}
                    rec(c, l2, self.N.resolver(m, l2), q)
                    continue
                if isinstance(c, ast.ClassDef):
                    rec(c, local, res, q + [c.name])
                    continue
                if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp,
                                  ast.GeneratorExp)):
                    l2 = local | {x.id for g in c.generators
                                  for x in ast.walk(g.target)
                                  if isinstance(x, ast.Name)}
                    rec(c, l2, self.N.resolver(m, l2), q)
                    continue
                site = Site(m, '.'.join(q), getattr(c, 'lineno', 0),
                            id(c) in guarded)
                if isinstance(c, ast.Attribute) and isinstance(
                        c.ctx, ast.Load):
                    d = res(c)
                    if d:
                        self.dotted.setdefault(d, []).append(site)
                elif isinstance(c, ast.Call):
                    d = res(c.func)
                    if d:
                        self.calls.append((d, c, site))
                    elif isinstance(c.func, ast.Attribute):
                        self.methods.append((c.func.attr, site))
                elif isinstance(c, ast.Subscript) and isinstance(
                        c.value, ast.Attribute) and \
                        c.value.attr in INDEXERS and res(c.value) is None:
                    self.methods.append((c.value.attr, site))
                elif isinstance(c, ast.Import):
                    for a in c.names:
                        self.imports.setdefault(a.name, []).append(site)
                elif isinstance(c, ast.ImportFrom):
                    base = absolute(m, path, c)
                    for a in c.names:
                        self.imports.setdefault(
                            base if a.name == '*' else base + '.' + a.name,
                            []).append(site)
                rec(c, local, res, q)
        rec(tree, frozenset(), self.N.resolver(m, frozenset()), [])

    # -- classes
    def collect_classes(self):
        ext = set()
        for m, (path, tree) in sorted(self.mods.items()):
            for n in ast.walk(tree):
                if not isinstance(n, ast.ClassDef):
                    continue
                d = m + '.' + n.name
                if d not in self.N.defs or self.N.defs[d][1] is not n:
                    continue
                res = self.N.resolver(m)
                bases = [res(b) for b in n.bases]
                own, opened = {}, bool(n.keywords and False)
                for k in n.body:
                    if isinstance(k, FN):
                        own[k.name] = k
                    elif isinstance(k, ast.ClassDef):
                        own[k.name] = None
                    else:
                        for x in ast.walk(k):
                            if isinstance(x, ast.Name) and isinstance(
                                    x.ctx, ast.Store):
                                own[x.id] = None
                            elif isinstance(x, FN):
                                own[x.name] = x
                attrs = set()
                for k in ast.walk(n):
                    if not isinstance(k, FN):
                        continue
                    if k.name in ('__getattr__', '__getattribute__'):
                        opened = True
                    first = (k.args.posonlyargs + k.args.args)[:1]
                    selfs = {x.arg for x in first} | {'self'}
                    for x in ast.walk(k):
                        if isinstance(x, ast.Attribute) and isinstance(
                                x.value, ast.Name) and \
                                x.value.id in selfs:
                            if isinstance(x.ctx, (ast.Store, ast.Del)):
                                attrs.add(x.attr)
                            elif x.attr == '__dict__':
                                opened = True
                        elif isinstance(x, ast.Call) and isinstance(
                                x.func, ast.Name) and x.func.id in (
                                    'setattr', 'vars') and x.args and \
                                isinstance(x.args[0], ast.Name) and \
                                x.args[0].id in selfs:
                            if x.func.id == 'setattr' and isinstance(
                                    x.args[1], ast.Constant):
                                attrs.add(x.args[1].value)
                            else:
                                opened = True
                self.classes[d] = {'node': n, 'm': m, 'bases': bases,
                                   'own': own, 'attrs': attrs,
                                   'open': opened}
                ext |= {b for b in bases if b and b not in self.N.defs}
        return ext

    def mro(self, d, seen=()):
        """linearisation good enough for the package's hierarchies: depth
        first, later duplicates win; None marks an unknown ancestor"""
        out = [d]
        for b in self.classes[d]['bases']:
            if b in self.classes and b not in seen:
                out += self.mro(b, seen + (d,))
            else:
                out.append(('ext', b))
        res = []
        for i, x in enumerate(out):
            if x not in out[i + 1:]:
                res.append(x)
        return res

    def leaves(self, d):
        subs = [c for c in self.classes if d in self.classes[c]['bases']]
        out = []
        for s in subs:
            out += self.leaves(s)
        return out or [d]

    def lookup(self, leaf, name):
        """'open' | 'missing' | 'attr' | (class, FunctionDef)"""
        opened = False
        found = None
        for c in self.mro(leaf):
            if isinstance(c, tuple):
                mem = dir(object) if c[1] == 'object' else \
                    self.members.get(c[1]) if c[1] else None
                if mem is None:
                    opened = True
                elif name in mem and found is None:
                    found = 'attr'
                continue
            k = self.classes[c]
            if name in k['attrs']:
                return 'attr'
            if name in k['own'] and found is None:
                f = k['own'][name]
                found = (c, f) if f is not None else 'attr'
            opened = opened or k['open']
        if found is None:
            found = 'attr' if name in dir(object) or name in IMPLICIT \
                else None
        return found or ('open' if opened else 'missing')


def mismatch(params, call, bound):
    """why a call does not fit the parameters, or None.  params: list of
    (name, kind, has default); kinds as in inspect"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(
            k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    pos = [p for p in params if p[1] in ('POSITIONAL_ONLY',
                                         'POSITIONAL_OR_KEYWORD')]
    if bound:
        pos = pos[1:]
    names = {p[0] for p in params if p[1] in ('POSITIONAL_OR_KEYWORD',
                                              'KEYWORD_ONLY')}
    if bound and params:
        names -= {params[0][0]}
    var = any(p[1] == 'VAR_POSITIONAL' for p in params)
    kwv = any(p[1] == 'VAR_KEYWORD' for p in params)
    for k in call.keywords:
        if k.arg is not None and k.arg not in names and not kwv:
            return 'no parameter %r' % k.arg
    n = sum(1 for a in call.args if not isinstance(a, ast.Starred))
    if n > len(pos) and not var:
        return '%d positional arguments, at most %d' % (n, len(pos))
    if star:
        return None
    given = {k.arg for k in call.keywords}
    for p in pos[:n]:
        if p[0] in given and not kwv:
            return 'two values for %r' % p[0]
    for p in pos[n:]:
        if not p[2] and p[0] not in given:
            return 'no value for %r' % p[0]
    for p in params:
        if p[1] == 'KEYWORD_ONLY' and not p[2] and p[0] not in given:
            return 'no value for %r' % p[0]
    return None


def params_of(fn):
    a = fn.args
    pos = a.posonlyargs + a.args
    nd = len(pos) - len(a.defaults)
    out = []
    for i, x in enumerate(pos):
        out.append((x.arg, 'POSITIONAL_ONLY' if i < len(a.posonlyargs)
                    else 'POSITIONAL_OR_KEYWORD', i >= nd))
    if a.vararg:
        out.append((a.vararg.arg, 'VAR_POSITIONAL', True))
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        out.append((x.arg, 'KEYWORD_ONLY', d is not None))
    if a.kwarg:
        out.append((a.kwarg.arg, 'VAR_KEYWORD', True))
    return out


def decorators(fn):
    out = set()
    for d in fn.decorator_list:
        out.add(d.id if isinstance(d, ast.Name) else
                d.attr if isinstance(d, ast.Attribute) else '?')
    return out


F, S = 'pandas.DataFrame', 'pandas.Series'
FS = frozenset([F, S])
MADE = {'pandas.DataFrame': {F}, 'pandas.Series': {S},
        'pandas.read_csv': {F}, 'pandas.read_excel': {F},
        'pandas.read_sql': {F}, 'pandas.read_sql_query': {F},
        'pandas.concat': FS, 'pandas.merge': {F},
        'pandas.HDFStore': {'pandas.HDFStore'},
        'pandas.Timestamp': {'pandas.Timestamp'},
        'pandas.Timedelta': {'pandas.Timedelta'},
        'numpy.array': {'numpy.ndarray'}, 'numpy.zeros': {'numpy.ndarray'},
        'numpy.ones': {'numpy.ndarray'}, 'numpy.empty': {'numpy.ndarray'},
        'networkx.DiGraph': {'networkx.DiGraph'}}
SAME = {'drop', 'rename', 'dropna', 'fillna', 'copy', 'sort_index',
        'sort_values', 'head', 'tail', 'astype', 'tz_localize', 'tz_convert',
        'drop_duplicates', 'reindex', 'ffill', 'bfill', 'abs', 'shift',
        'diff', 'clip', 'round', 'truncate', 'replace'}
FRAME = {'reset_index', 'set_index', 'to_frame', 'apply', 'map', 'where',
         'mask', 'interpolate', 'T', 'transpose', 'infer_objects'}
METHODS = {}      # class -> {method: signature}, of the installed libraries
PATCHED = set()
TYPES = sorted(set().union(*MADE.values()))


def types_of(fn, res, returned=None, seed=()):
    """local name -> set of library classes, for the names every assignment
    of which makes a value of a known class"""
    assigned = {}
    bad = {x.arg for x in ast.walk(fn) if isinstance(x, ast.arg)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name):
            assigned.setdefault(n.targets[0].id, []).append(n.value)
    stores = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            stores[n.id] = stores.get(n.id, 0) + 1
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
    types = {k: None for k, v in assigned.items()
             if stores[k] == len(v) and (k not in bad or k in seed)}
    fixed = {k: seed[k] for k in seed if k not in types and k not in stores}
    types.update(fixed)
    seed = dict(seed)
    # None: no value seen yet; the empty set: anything
    for _ in range(6):
        for k in types:
            if k in fixed:
                continue
            got = seed.get(k) or frozenset()
            for v in assigned[k]:
                t = type_of(v, types, res, returned)
                if t is None:
                    continue
                if not t:
                    got = None
                    break
                got |= t
            types[k] = frozenset() if got is None else got or types[k]
    return types


def type_of(e, types, res, returned=None):
    """frozenset of classes, empty: anything, None: not known yet"""
    if isinstance(e, ast.Name):
        return types.get(e.id, frozenset())
    if isinstance(e, ast.Call):
        d = res(e.func)
        if d in ('copy.deepcopy', 'copy.copy') and len(e.args) == 1:
            return type_of(e.args[0], types, res, returned)
        if d in MADE:
            if d == 'pandas.read_csv' and any(
                    k.arg in ('chunksize', 'iterator', None)
                    for k in e.keywords):
                return frozenset()
            return frozenset(MADE[d])
        if isinstance(e.func, ast.Attribute) and e.func.attr in (
                'mean', 'sum', 'max', 'min', 'median', 'first', 'last') and \
                isinstance(e.func.value, ast.Call) and isinstance(
                    e.func.value.func, ast.Attribute) and \
                e.func.value.func.attr in ('resample', 'rolling'):
            return type_of(e.func.value.func.value, types, res, returned)
        if isinstance(e.func, ast.Attribute):
            t = type_of(e.func.value, types, res, returned)
            if t is None:
                return None
            if any(k.arg in ('inplace', None) for k in e.keywords):
                return frozenset()
            if t and all(METHODS.get(c) and e.func.attr not in METHODS[c]
                         and c + '.' + e.func.attr not in PATCHED
                         for c in t):
                return None             # fails: no value comes out
            if t and t <= FS:
                if e.func.attr in SAME:
                    return t
                if e.func.attr in FRAME:
                    return FS
        elif returned is not None:
            return returned(d)
        if returned is not None and d:
            return returned(d)
    if isinstance(e, ast.Subscript):
        t = type_of(e.value, types, res, returned)
        if t is None:
            return None
        if t <= FS and (isinstance(e.slice, (ast.Compare, ast.Slice)) or
                        isinstance(e.slice, ast.UnaryOp) and isinstance(
                            e.slice.op, ast.Invert)):
            return t
        if t == {F}:
            return frozenset([F]) if isinstance(e.slice, ast.List) else FS
    return frozenset()


class Types(object):
    """classes of the local names of every function: from the constructors,
    through the methods that keep the class, the results of the package's own
    functions and the arguments its own calls pass (least fixed point)"""
    def __init__(self, L):
        self.L = L
        self.fns = [(m, q, fn, L.N.resolver(m, locals_of(fn)))
                    for m, q, fn in L.N.functions()]
        self.own = {id(L.N.defs[d][1]): d for d in L.N.defs
                    if isinstance(L.N.defs[d][1], ast.FunctionDef)}
        self.params, self.ret = {}, {}
        called = {d for d, c, s in L.calls}
        for i, d in self.own.items():
            fn = L.N.defs[d][1]
            a = fn.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                self.params[d, x.arg] = None if d in called else frozenset()
            self.ret[d] = frozenset() if fn.decorator_list or any(
                isinstance(x, (ast.Yield, ast.YieldFrom))
                for x in ast.walk(fn)) else None
        for _ in range(12):
            params = {k: v if v == frozenset() else None
                      for k, v in self.params.items()}
            ret = {}
            for m, q, fn, res in self.fns:
                types = self.of(fn, res)
                for n in ast.walk(fn):
                    if isinstance(n, ast.Call):
                        d = res(n.func)
                        if d in self.ret:
                            self.site(d, n, types, res, params)
                d = self.own.get(id(fn))
                if d:
                    ret[d] = self.result(fn, types, res) \
                        if self.ret[d] != frozenset() else frozenset()
            if params == self.params and ret == self.ret:
                break
            self.params, self.ret = params, ret
        else:
            self.params, self.ret = {}, {d: frozenset() for d in self.ret}

    @staticmethod
    def join(a, b):
        if a is None or b is None:
            return b if a is None else a
        return a | b if a and b else frozenset()

    def site(self, d, n, types, res, got):
        fn = self.L.N.defs[d][1]
        names = [x.arg for x in fn.args.posonlyargs + fn.args.args]
        every = names + [x.arg for x in fn.args.kwonlyargs]
        pairs = list(zip(names, n.args)) + [(k.arg, k.value)
                                            for k in n.keywords]
        if any(isinstance(a, ast.Starred) for a in n.args) or any(
                k.arg is None for k in n.keywords) or 'self' in names[:1]:
            pairs = []
        for x in every:
            v = [v for k, v in pairs if k == x]
            t = type_of(v[0], types, res, self.returned) if v \
                else frozenset()
            got[d, x] = self.join(got[d, x], t)

    def of(self, fn, res):
        d = self.own.get(id(fn))
        seed = {k[1]: v for k, v in self.params.items()
                if k[0] == d and v != frozenset()} if d else {}
        return types_of(fn, res, self.returned, seed)

    def returned(self, d):
        return self.ret.get(d, frozenset())

    def result(self, fn, types, res):
        out = None
        inner = {id(x) for f in ast.walk(fn) if isinstance(
            f, FN + (ast.Lambda,)) and f is not fn for x in ast.walk(f)}
        for x in ast.walk(fn):
            if isinstance(x, ast.Return) and id(x) not in inner:
                t = type_of(x.value, types, res, self.returned) if x.value \
                    else frozenset()
                out = self.join(out, t)
        return out


def typed(L, methods):
    """method calls on values whose library class is known"""
    METHODS.update({k: v for k, v in methods.items() if v is not None})
    PATCHED.update(patched(L))
    T = Types(L)
    for m, q, fn, res in T.fns:
        types = T.of(fn, res)
        if not types:
            continue
        guarded = L.guards(fn)
        for n in ast.walk(fn):
            if isinstance(n, ast.Subscript) and isinstance(
                    n.value, ast.Attribute) and n.value.attr in INDEXERS:
                a, call = n.value, None
            elif isinstance(n, ast.Call) and isinstance(n.func,
                                                        ast.Attribute):
                a, call = n.func, n
            else:
                continue
            if id(a) in guarded or res(a):
                continue
            t = type_of(a.value, types, res, T.returned)
            if not t or any(methods.get(c) is None for c in t):
                continue
            why = []
            for c in sorted(t):
                if c + '.' + a.attr in patched(L):
                    continue
                if a.attr not in methods[c]:
                    why.append('%s has no %r' % (c, a.attr))
                elif call is not None and methods[c][a.attr]:
                    w = mismatch([tuple(p) for p in methods[c][a.attr]],
                                 call, True)
                    if w:
                        why.append('%s.%s: %s' % (c, a.attr, w))
            L.ctx.expect(len(why) < len(t), 'typed-method',
                         '%s.%s:%s' % (m, q, a.attr),
                         'the call fails: ' + '; '.join(why),
                         '%s:%d' % (os.path.relpath(L.mods[m][0], L.pr.root),
                                    n.lineno))


def probe(req):
    try:
        r = subprocess.run([PY, '-I', PROBE], input=json.dumps(req),
                           capture_output=True, text=True, cwd='/',
                           timeout=300)
        return json.loads(r.stdout)
    except Exception as e:
        return {'error': '%s' % e}


def where(s):
    return '%s.%s' % (s.m, s.q) if s.q else s.m


def loc(L, s):
    return '%s:%d' % (os.path.relpath(L.mods[s.m][0], L.pr.root), s.line)


def run(ctx):
    L = Lint(ctx)
    L.collect()
    ext = L.collect_classes()
    libs = sorted({i for i in L.imports
                   if i.split('.')[0] not in roots(L)})
    names = sorted({d for d in L.dotted if d.split('.')[0] not in roots(L)} |
                   set(libs))
    stars = set()
    for m, (path, tree) in L.mods.items():
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and n.names[0].name == '*':
                b = absolute(m, path, n)
                if b not in L.mods:
                    stars.add(b)
    out = probe({'names': names,
                 'calls': sorted({d for d, c, s in L.calls
                                  if d.split('.')[0] not in roots(L)}),
                 'classes': sorted(ext), 'types': TYPES, 'stars': sorted(stars),
                 'modules': sorted(set(libs) | {x.rsplit('.', 1)[0]
                                                for x in libs})})
    if 'error' in out:
        ctx.undecided('library', out['error'])
        out = {'resolved': {}, 'signatures': {}, 'members': {}, 'stars': {},
               'methods': {}, 'callable': {}, 'attributes': None}
    L.star = {k: v for k, v in out['stars'].items() if v is not None}
    L.members = out['members']
    undefined(L)
    library(L, out['resolved'])
    internal(L)
    selfattrs(L)
    calls(L, out['signatures'], out['callable'])
    idioms(L)
    unbound(L)
    formats(L)
    typed(L, out['methods'])
    if out['attributes'] is not None:
        anywhere(L, set(out['attributes']))
    ctx.functions |= {m + '.' + q for m, q, n in L.N.functions()}


def roots(L):
    return {m.split('.')[0] for m in L.mods}


def undefined(L):
    BI = set(dir(builtins)) | IMPLICIT
    for m, (path, tree) in sorted(L.mods.items()):
        if skip(m):
            continue
        names = L.namespace(m)
        if names is None:
            L.ctx.undecided('names', 'star import of an unknown package in '
                            + m)
            continue
        guarded = L.guards(tree)
        lines = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                lines.setdefault(n.id, []).append((n.lineno,
                                                   id(n) in guarded))
        st = symbols(path)

        def walk(t, q):
            lo = t.get_lineno()
            for s in t.get_symbols():
                if not (s.is_global() and s.is_referenced() or
                        t.get_type() == 'module' and s.is_referenced()):
                    continue
                n = s.get_name()
                if n in names or n in BI:
                    L.ctx.ok('names')
                    continue
                at = [x for x in lines.get(n, [(lo, False)]) if x[0] >= lo]
                if at and all(g for l, g in at):
                    L.ctx.ok('names')
                    continue
                L.ctx.violation(
                    'names', '%s:%s' % ('.'.join([m] + q), n),
                    'the name %r is defined nowhere: NameError' % n,
                    '%s:%d' % (os.path.relpath(path, L.pr.root),
                               at[0][0] if at else lo))
            for c in t.get_children():
                walk(c, q if c.get_type() != 'class' and
                     c.get_name() in ('lambda', 'listcomp', 'genexpr',
                                      'dictcomp', 'setcomp', 'top')
                     else q + [c.get_name()])
        walk(st, [])


def library(L, resolved):
    for kind, table in (('path', L.dotted), ('import', L.imports)):
        for d, sites in sorted(table.items()):
            if d not in resolved or resolved[d] is None:
                continue
            for s in sites:
                if resolved[d] or s.guarded:
                    L.ctx.ok('library-' + kind)
                elif d in patched(L):
                    L.ctx.ok('library-' + kind)
                else:
                    L.ctx.violation(
                        'library', '%s:%s' % (where(s), d),
                        'the installed library has no %s' % d, loc(L, s))


def patched(L):
    """library attributes the package itself assigns"""
    if not hasattr(L, '_patched'):
        out = set()
        for m, (path, tree) in L.mods.items():
            res = L.N.resolver(m)
            for n in ast.walk(tree):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store):
                    b = res(n.value)
                    if b:
                        out.add(b + '.' + n.attr)
        L._patched = out
    return L._patched


def exists(L, d):
    """does a dotted name into the repository exist? None: cannot tell"""
    if d in L.mods or d in L.N.defs:
        return True
    head, _, last = d.rpartition('.')
    if not head:
        return None
    if head in L.mods:
        ns = L.namespace(head)
        return None if ns is None else last in ns or last in IMPLICIT
    if head in L.classes:
        return L.lookup(head, last) != 'missing'
    if head in L.N.defs:            # attribute of a function
        return None
    h = exists(L, head)
    return h if h is False else None


def internal(L):
    for kind, table in (('path', L.dotted), ('import', L.imports)):
        for d, sites in sorted(table.items()):
            if d.split('.')[0] not in roots(L):
                continue
            e = exists(L, L.N.canon(d))
            if e is None:
                head = d.rsplit('.', 1)[0]
                e = True if head in L.mods and L.namespace(head) is None \
                    else None
            for s in sites:
                if e is None:
                    continue
                if e or s.guarded or d.rsplit('.', 1)[-1] in (
                        'append',) and d in patched(L):
                    L.ctx.ok('internal-' + kind)
                else:
                    L.ctx.violation(
                        'internal', '%s:%s' % (where(s), d),
                        'the package has no %s' % d, loc(L, s))


def selfattrs(L):
    for d, k in sorted(L.classes.items()):
        if skip(k['m']):
            continue
        path = L.mods[k['m']][0]
        guarded = L.guards(k['node'])
        leaves = L.leaves(d)
        for f in k['own'].values():
            if f is None or not isinstance(f, FN):
                continue
            decs = decorators(f)
            if 'staticmethod' in decs:
                continue
            first = (f.args.posonlyargs + f.args.args)[:1]
            if not first:
                continue
            me = first[0].arg
            # the leaves whose method this is
            mine = [x for x in leaves
                    if L.lookup(x, f.name) == (d, f)]
            if f.name.startswith('__') or not mine:
                mine = mine or leaves
            for n in ast.walk(f):
                if not (isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Load) and isinstance(n.value, ast.Name)
                        and n.value.id == me):
                    continue
                name = n.attr
                if name.startswith('__') and not name.endswith('__'):
                    ok = name in k['own'] or name in k['attrs'] or k['open']
                    bad = [] if ok else [d]
                else:
                    bad = [x for x in mine
                           if L.lookup(x, name) == 'missing' and not (
                               x == d and abstract(L, d))]
                if bad and name in L.outside and not called(k['node'], n):
                    bad = []
                if not bad or id(n) in guarded:
                    L.ctx.ok('self')
                    continue
                L.ctx.violation(
                    'self', '%s.%s:%s' % (d, f.name, name),
                    'no %s of %s has %r: AttributeError' % (
                        'method or attribute', bad[0].rsplit('.', 1)[-1],
                        name),
                    '%s:%d' % (os.path.relpath(path, L.pr.root), n.lineno))


def called(tree, attr):
    return any(isinstance(c, ast.Call) and c.func is attr
               for c in ast.walk(tree))


def abstract(L, d):
    """a class none of whose instances are made: a mixin"""
    return not any(c == d for c, call, s in L.calls)


def calls(L, signatures, callable_):
    for d, c, s in L.calls:
        if s.guarded:
            continue
        if callable_.get(d) is False:
            L.ctx.violation('library-call', '%s:%s' % (where(s), d),
                            '%s cannot be called' % d, loc(L, s))
            continue
        gone = [k.arg for k in c.keywords if (d, k.arg) in GONE]
        if gone:
            L.ctx.violation('library-call', '%s:%s' % (where(s), d),
                            '%s no longer takes %s' % (d, gone), loc(L, s))
            continue
        if d in signatures and signatures[d] is not None:
            why = mismatch([tuple(p) for p in signatures[d]], c, False)
            rule = 'library-call'
        elif d in L.classes:
            f = None
            if L.classes[d]['node'].decorator_list or \
                    L.classes[d]['node'].keywords:
                continue
            hit = L.lookup(d, '__init__')
            if L.lookup(d, '__new__') not in ('attr', 'missing', 'open'):
                continue
            if not isinstance(hit, tuple) or decorators(hit[1]):
                continue
            why = mismatch(params_of(hit[1]), c, True)
            rule = 'call'
        elif d in L.N.defs:
            m, f = L.N.defs[d]
            if decorators(f) - {'staticmethod'}:
                continue
            if redefined(L, m, f):
                continue
            bound = False
            if d.rsplit('.', 1)[0] in L.classes and \
                    not decorators(f) and False:
                bound = True
            why = mismatch(params_of(f), c, bound)
            rule = 'call'
        else:
            continue
        L.ctx.expect(why is None, rule, '%s:%s' % (where(s), d),
                     'the call of %s does not fit it: %s' % (d, why),
                     loc(L, s))
    # calls of the object's own methods
    for d, k in sorted(L.classes.items()):
        if skip(k['m']):
            continue
        guarded = L.guards(k['node'])
        leaves = L.leaves(d)
        for f in k['own'].values():
            if not isinstance(f, FN) or 'staticmethod' in decorators(f):
                continue
            first = (f.args.posonlyargs + f.args.args)[:1]
            if not first:
                continue
            me = first[0].arg
            mine = [x for x in leaves if L.lookup(x, f.name) == (d, f)] \
                or leaves
            for n in ast.walk(f):
                if not isinstance(n, ast.Call) or id(n) in guarded or \
                        not isinstance(n.func, ast.Attribute):
                    continue
                v = n.func.value
                targets = []
                if isinstance(v, ast.Name) and v.id == me:
                    for x in mine:
                        hit = L.lookup(x, n.func.attr)
                        if isinstance(hit, tuple):
                            targets.append(hit)
                elif isinstance(v, ast.Call) and isinstance(
                        v.func, ast.Name) and v.func.id == 'super':
                    for x in mine:
                        hit = after(L, x, d, n.func.attr)
                        if hit == 'missing':
                            L.ctx.violation(
                                'super', '%s.%s:%s' % (d, f.name,
                                                       n.func.attr),
                                'no base class has it', '%s:%d' % (
                                    k['m'], n.lineno))
                        elif isinstance(hit, tuple):
                            targets.append(hit)
                for c, g in targets:
                    decs = decorators(g)
                    if decs - {'staticmethod', 'classmethod'}:
                        continue
                    why = mismatch(params_of(g), n,
                                   'staticmethod' not in decs)
                    L.ctx.expect(
                        why is None, 'method-call',
                        '%s.%s:%s' % (d, f.name, n.func.attr),
                        'the call of %s.%s does not fit it: %s' % (
                            c, g.name, why),
                        '%s:%d' % (os.path.relpath(
                            L.mods[k['m']][0], L.pr.root), n.lineno))


def redefined(L, m, f):
    """a module-level function that is bound more than once"""
    tree = L.mods[m][1]
    n = sum(1 for x in ast.walk(tree)
            if isinstance(x, FN + (ast.ClassDef,)) and x.name == f.name and
            x in tree.body)
    n2 = sum(1 for x in ast.walk(tree) if isinstance(x, ast.Name) and
             isinstance(x.ctx, ast.Store) and x.id == f.name)
    return f in tree.body and (n > 1 or n2 > 0)


def after(L, leaf, d, name):
    order = L.mro(leaf)
    if d not in order:
        return 'open'
    rest = order[order.index(d) + 1:]
    opened = False
    for c in rest:
        if isinstance(c, tuple):
            mem = dir(object) if c[1] == 'object' else \
                L.members.get(c[1]) if c[1] else None
            if mem is None:
                opened = True
            elif name in mem:
                return 'attr'
            continue
        if name in L.classes[c]['own']:
            g = L.classes[c]['own'][name]
            return (c, g) if g is not None else 'attr'
        if name in L.classes[c]['attrs']:
            return 'attr'
    if name in dir(object) or name.startswith('__'):
        return 'attr'
    return 'open' if opened else 'missing'


def formats(L):
    for m, (path, tree) in sorted(L.mods.items()):
        if skip(m):
            continue
        for mm, q, fn in [(m, '', tree)]:
            owner = owners(tree)
            for n in ast.walk(tree):
                why = None
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr == 'format' \
                        and isinstance(n.func.value, ast.Constant) and \
                        isinstance(n.func.value.value, str):
                    why = bad_format(n)
                elif isinstance(n, ast.BinOp) and isinstance(
                        n.op, ast.Mod) and isinstance(
                            n.left, ast.Constant) and isinstance(
                                n.left.value, str):
                    why = bad_percent(n)
                else:
                    continue
                L.ctx.expect(
                    why is None, 'format',
                    '%s:%s' % ('.'.join([m] + owner.get(id(n), [])),
                               'format'),
                    'the format string does not fit its arguments: %s' % why,
                    '%s:%d' % (os.path.relpath(path, L.pr.root), n.lineno))


def idioms(L):
    """iterators used as arrays, quotients used as counts, time zones taken
    to have a zone"""
    for m, q, fn in L.N.functions():
        res = L.N.resolver(m, locals_of(fn))
        guarded = L.guards(fn)
        lazy, real = {}, {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                real[n.id] = real.get(n.id, 0) + 1
            elif isinstance(n, ast.arg):
                real[n.arg] = real.get(n.arg, 0) + 1
        single = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name):
                single.setdefault(n.targets[0].id, []).append(n.value)

        def is_lazy(e):
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
                return res(e.func) in LAZY
            if isinstance(e, ast.Name) and len(
                    single.get(e.id, ())) == real.get(e.id):
                return all(is_lazy(v) if not isinstance(v, ast.Name)
                           else False for v in single[e.id])
            return False

        def is_quotient(e, depth=0):
            """evaluates to a float whatever numbers it is given"""
            if isinstance(e, ast.BinOp):
                if isinstance(e.op, ast.Div):
                    return not any(isinstance(x, ast.Constant) and isinstance(
                        x.value, str) for x in ast.walk(e))
                if isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
                    return is_quotient(e.left, depth) or \
                        is_quotient(e.right, depth)
            if isinstance(e, ast.Name) and depth < 4 and len(
                    single.get(e.id, ())) == real.get(e.id):
                return all(is_quotient(v, depth + 1) for v in single[e.id])
            return False

        def say(n, rule, what):
            L.ctx.violation(rule, '%s.%s:%s' % (m, q, rule), what,
                            '%s:%d' % (os.path.relpath(
                                L.mods[m][0], L.pr.root), n.lineno))
        for n in ast.walk(fn):
            if id(n) in guarded:
                continue
            if isinstance(n, ast.Call):
                d = res(n.func) or ''
                if d == 'len' or d.startswith('numpy.') and \
                        d != 'numpy.fromiter':
                    if any(is_lazy(a) for a in n.args):
                        say(n, 'iterator', '%s is given an iterator, which '
                            'is not a sequence' % d)
                    else:
                        L.ctx.ok('iterator')
                if d == 'range' or d in ('numpy.array_split',
                                         'numpy.split'):
                    if any(is_quotient(a) for a in (
                            n.args if d == 'range' else n.args[1:])):
                        say(n, 'count', '%s is given a quotient, which is '
                            'not an integer' % d)
                    else:
                        L.ctx.ok('count')
            elif isinstance(n, ast.Subscript):
                if is_lazy(n.value):
                    say(n, 'iterator', 'an iterator is subscripted')
                elif isinstance(n.slice, ast.Slice) and any(
                        is_quotient(x) for x in (n.slice.lower, n.slice.upper)
                        if x is not None):
                    say(n, 'count', 'a slice is bounded by a quotient')
                else:
                    L.ctx.ok('count')
            elif isinstance(n, ast.Attribute) and n.attr in (
                    'zone', 'localize', 'normalize') and isinstance(
                        n.value, ast.Attribute) and n.value.attr in (
                            'tz', 'tzinfo'):
                say(n, 'time-zone', 'the UTC time zone of pandas has no %r'
                    % n.attr)


class Reach(object):
    """which locals some path may have assigned at each read"""
    def __init__(self, fn):
        self.local = set()
        a = fn.args
        args = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        args |= {x.arg for x in (a.vararg, a.kwarg) if x}
        free = set()
        inner = set()
        for f in ast.walk(fn):
            if f is not fn and isinstance(f, FN + (ast.Lambda, ast.ClassDef)):
                inner |= {id(x) for x in ast.walk(f)} - {id(f)}
            if isinstance(f, (ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
                for g in f.generators:
                    inner |= {id(x) for x in ast.walk(g.target)}
        for n in ast.walk(fn):
            if id(n) in inner:
                if isinstance(n, ast.Nonlocal):
                    free |= set(n.names)
                continue
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                free |= set(n.names)
            elif isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                self.local.add(n.id)
        self.local -= free
        self.args = args
        self.bad = []
        self.reads = 0
        self.run(fn.body, frozenset(args))

    def read(self, e, env):
        if e is None or env is None:
            return env
        if isinstance(e, (ast.Lambda,) + FN):
            return env
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                if e.id in self.local:
                    self.reads += 1
                    if e.id not in env and e.id not in self.comp:
                        self.bad.append(e)
                return env
            return env | {e.id}
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            old = self.comp
            self.comp = self.comp | {
                x.id for g in e.generators for x in ast.walk(g.target)
                if isinstance(x, ast.Name)}
            for c in ast.iter_child_nodes(e):
                self.read(c, env)
            self.comp = old
            return env
        for c in ast.iter_child_nodes(e):
            env = self.read(c, env)
        return env
    comp = frozenset()

    @staticmethod
    def join(*es):
        es = [e for e in es if e is not None]
        return frozenset().union(*es) if es else None

    def run(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def names(self, body):
        return {n.id for b in body for n in ast.walk(b)
                if isinstance(n, ast.Name) and not isinstance(n.ctx,
                                                              ast.Load)}

    def stmt(self, s, env):
        if isinstance(s, FN + (ast.ClassDef,)):
            return env | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return env | {(a.asname or a.name.split('.')[0])
                          for a in s.names}
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.read(c, env)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            self.out = self.join(self.out, env)
            return None
        if isinstance(s, ast.If):
            env = self.read(s.test, env)
            return self.join(self.run(s.body, env), self.run(s.orelse, env))
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            if isinstance(s, ast.While):
                env = env | self.names(s.body)
                env = self.read(s.test, env)
            else:
                env = self.read(s.iter, env)
                env = self.read(s.target, env)
                env = env | self.names(s.body)
            old, self.out = getattr(self, 'out', None), env
            a = self.run(s.body, env)
            b = self.run(s.orelse, self.join(env, a))
            r = self.join(a, b, self.out)
            self.out = old
            return r
        if isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            start = env
            a = self.run(s.body, env)
            mid = start | self.names(s.body)
            outs = [self.run(s.orelse, a) if a is not None else None]
            for h in s.handlers:
                self.read(h.type, mid)
                e = self.run(h.body, mid | ({h.name} if h.name else set()))
                outs.append(e)
            r = self.join(*outs)
            if s.finalbody:
                f = self.run(s.finalbody, (r or frozenset()) | mid |
                             self.names(s.body))
                return r if f is None or r is None else r | f
            return r
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                env = self.read(i.context_expr, env)
                if i.optional_vars is not None:
                    env = self.read(i.optional_vars, env)
            return self.run(s.body, env)
        if isinstance(s, ast.Assign):
            env = self.read(s.value, env)
            for t in s.targets:
                env = self.read(t, env)
            return env
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.read(ast.Name(id=s.target.id, ctx=ast.Load(),
                                   lineno=s.lineno), env)
            env = self.read(s.value, env)
            return self.read(s.target, env)
        if isinstance(s, ast.AnnAssign):
            env = self.read(s.value, env)
            return self.read(s.target, env) if s.value is not None else env
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env = env - {t.id}
                else:
                    self.read(t, env)
            return env
        if isinstance(s, (ast.Expr, ast.Assert)):
            return self.read(s, env)
        if type(s).__name__ == 'Match':
            return env | self.names([s])
        return self.read(s, env)


def unbound(L):
    for m, q, fn in L.N.functions():
        r = Reach(fn)
        L.ctx.ok('unbound', r.reads - len(r.bad))
        guarded = L.guards(fn)
        for e in r.bad:
            if id(e) in guarded:
                continue
            L.ctx.violation(
                'unbound', '%s.%s:%s' % (m, q, e.id),
                'no path assigns %r before it is read: UnboundLocalError'
                % e.id, '%s:%d' % (os.path.relpath(
                    L.mods[m][0], L.pr.root), e.lineno))


def owners(tree):
    out = {}

    def rec(n, q):
        for c in ast.iter_child_nodes(n):
            out[id(c)] = q
            rec(c, q + [c.name] if isinstance(c, FN + (ast.ClassDef,))
                else q)
    rec(tree, [])
    return out


def bad_format(n):
    if any(isinstance(a, ast.Starred) for a in n.args) or any(
            k.arg is None for k in n.keywords):
        return None
    try:
        parts = list(string.Formatter().parse(n.func.value.value))
    except ValueError as e:
        return str(e)
    auto = 0
    for lit, field, spec, conv in parts:
        fields = [field]
        if spec:
            fields += [f for _, f, _, _ in string.Formatter().parse(spec)]
        for f in fields:
            if f is None:
                continue
            head = f.split('.')[0].split('[')[0]
            if head == '':
                if auto >= len(n.args):
                    return 'field %d has no argument' % auto
                auto += 1
            elif head.isdigit():
                if int(head) >= len(n.args):
                    return 'field %s has no argument' % head
            elif head not in {k.arg for k in n.keywords}:
                return 'field %r has no argument' % head
    return None


def bad_percent(n):
    import re
    specs = re.findall(
        r'%(\((\w+)\))?[-#0 +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)',
        n.left.value)
    specs = [s for s in specs if s[4] != '%']
    if any(s[0] for s in specs):
        return None
    want = len(specs) + sum((s[2] == '*') + (s[3] == '*') for s in specs)
    if isinstance(n.right, ast.Tuple):
        if any(isinstance(e, ast.Starred) for e in n.right.elts):
            return None
        have = len(n.right.elts)
    elif isinstance(n.right, (ast.Constant, ast.JoinedStr, ast.BinOp)):
        have = 1
    else:
        return None
    return None if have == want else '%d fields, %d arguments' % (want, have)


def anywhere(L, attributes):
    BI = set()
    for o in vars(builtins).values():
        if isinstance(o, type):
            BI |= set(dir(o))
    known = attributes | BI | L.stored
    for name, s in L.methods:
        if s.guarded:
            continue
        L.ctx.expect(name in known and (name not in REMOVED or
                                        name in L.stored), 'method', '%s:%s' % (where(s), name),
                     'no class of the package or (any more) of the '
                     'installed libraries has %r' % name, loc(L, s))
