"""Abstract values of the interpreter.

Scalars (None, bool, int, float, str, bytes) and tuples are represented by
themselves.  Everything else is one of the classes below.  No code of the
analysed project is ever imported or executed: these objects are produced by
`interp.Interp`, which walks the project's syntax trees.
"""
import itertools

_uid = itertools.count(1)


class Val(object):
    """Base of all non-scalar abstract values."""
    __slots__ = ()


class AList(Val):
    __slots__ = ('items', 'uid', 'tag')

    def __init__(self, items=(), tag=None):
        self.items = list(items)
        self.uid = next(_uid)
        self.tag = tag

    def __repr__(self):
        return '[' + ', '.join(map(short, self.items)) + ']'


class AListSub(AList):
    """Instance of a project class derived from list."""
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, items=()):
        AList.__init__(self, items)
        self.cls = cls
        self.fields = {}


class ADict(Val):
    """Association list, keys compared with the interpreter's equality."""
    __slots__ = ('pairs', 'uid', 'default', 'tag')

    def __init__(self, pairs=(), default=None, tag=None):
        self.pairs = [list(p) for p in pairs]
        self.uid = next(_uid)
        self.default = default
        self.tag = tag

    def __repr__(self):
        return '{' + ', '.join('%s: %s' % (short(k), short(v))
                               for k, v in self.pairs) + '}'


class ASet(Val):
    __slots__ = ('items', 'uid', 'frozen')

    def __init__(self, items=(), frozen=False):
        self.items = list(items)
        self.uid = next(_uid)
        self.frozen = frozen

    def __repr__(self):
        return 'set(' + ', '.join(map(short, self.items)) + ')'


class AModule(Val):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<module %s>' % self.name


class Ext(Val):
    """Reference to something outside the project, by dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __eq__(self, other):
        return isinstance(other, Ext) and other.name == self.name

    def __hash__(self):
        return hash(('Ext', self.name))


class AFunc(Val):
    __slots__ = ('node', 'mod', 'env', 'defaults', 'kwdefaults', 'name',
                 'owner', 'is_gen', 'attrs', 'local_names')

    def __init__(self, node, mod, env, defaults, kwdefaults, name, owner):
        self.node = node
        self.mod = mod
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.owner = owner
        self.is_gen = False
        self.attrs = {}
        self.local_names = None

    @property
    def qualname(self):
        own = self.owner.name + '.' if self.owner is not None else ''
        return '%s.%s%s' % (self.mod.name, own, self.name)

    def __repr__(self):
        return '<function %s>' % self.qualname


class ABound(Val):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return '<bound %r of %s>' % (self.func, short(self.self))


class Native(Val):
    """A callable implemented by the analyser (a model)."""
    __slots__ = ('fn', 'name')

    def __init__(self, fn, name='native'):
        self.fn = fn
        self.name = name

    def __repr__(self):
        return '<native %s>' % self.name


class AProp(Val):
    __slots__ = ('fget', 'fset', 'fdel')

    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget = fget
        self.fset = fset
        self.fdel = fdel


class AStatic(Val):
    __slots__ = ('func', 'kind')

    def __init__(self, func, kind):
        self.func = func
        self.kind = kind     # 'static' | 'class'


class AClass(Val):
    __slots__ = ('name', 'mod', 'bases', 'ns', 'node', 'uid', '_mro')

    def __init__(self, name, mod, bases, ns, node):
        self.name = name
        self.mod = mod
        self.bases = bases
        self.ns = ns
        self.node = node
        self.uid = next(_uid)
        self._mro = None

    @property
    def qualname(self):
        return '%s.%s' % (self.mod.name, self.name)

    def mro(self):
        if self._mro is None:
            seqs = [b.mro() if isinstance(b, AClass) else [b]
                    for b in self.bases]
            seqs = [list(s) for s in seqs] + [list(self.bases)]
            out = [self]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                for s in seqs:
                    if s and s[0] == h:
                        del s[0]
            self._mro = out
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, AClass) and name in c.ns:
                return c.ns[name]
        return None

    def has(self, name):
        return any(isinstance(c, AClass) and name in c.ns for c in self.mro())

    def __repr__(self):
        return '<class %s>' % self.qualname


class AObj(Val):
    """Instance.  cls is an AClass or an Ext (external exceptions...)."""
    __slots__ = ('cls', 'fields', 'uid', 'payload')

    def __init__(self, cls, fields=None, payload=None):
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.uid = next(_uid)
        self.payload = payload

    def __repr__(self):
        n = self.cls.name.split('.')[-1]
        if n == 'TimeFrame':
            f = self.fields
            return 'TimeFrame(%s, %s%s%s)' % (
                short(f.get('_start')), short(f.get('_end')),
                ', empty' if f.get('_empty') else '',
                ', include_end' if f.get('include_end') else '')
        return '<%s#%d>' % (n, self.uid)


class AGen(Val):
    """Iterator/generator: wraps a Python generator of abstract values."""
    __slots__ = ('it', 'name', 'uid', 'done', 'closed')

    def __init__(self, it, name='generator'):
        self.it = it
        self.name = name
        self.uid = next(_uid)
        self.done = False
        self.closed = False

    def __repr__(self):
        return '<%s>' % self.name


class Super(Val):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Dom(Val):
    """Base of domain values: a model may implement any of these hooks.
    Returning NotImplemented means "no information": the interpreter then
    falls back to an opaque value."""
    __slots__ = ()

    def d_binop(self, I, op, other, swapped):
        return NotImplemented

    def d_unop(self, I, op):
        return NotImplemented

    def d_compare(self, I, op, other, swapped):
        return NotImplemented

    def d_truth(self, I):
        return NotImplemented

    def d_getattr(self, I, name):
        return NotImplemented

    def d_setattr(self, I, name, value):
        return NotImplemented

    def d_getitem(self, I, key):
        return NotImplemented

    def d_setitem(self, I, key, value):
        return NotImplemented

    def d_delitem(self, I, key):
        return NotImplemented

    def d_iter(self, I):
        return NotImplemented

    def d_len(self, I):
        return NotImplemented

    def d_contains(self, I, item):
        return NotImplemented

    def d_call(self, I, args, kwargs):
        return NotImplemented

    def d_isinstance(self, I, cls):
        return NotImplemented

    def d_deepcopy(self, I, memo):
        return self

    def d_key(self):
        return ('dom', id(self))


class Opq(Dom):
    """Opaque value with provenance: op applied to args.

    Two opaque values with the same key denote the same run-time value, so a
    branch taken on one is taken on the other within a path."""
    __slots__ = ('op', 'args', 'kwargs', 'attrs', 'uid', 'version', 'types',
                 'site')

    def __init__(self, op, args=(), kwargs=None, types=None, site=None):
        self.op = op
        self.args = tuple(args)
        self.kwargs = dict(kwargs or {})
        self.attrs = {}
        self.uid = next(_uid)
        self.version = 0
        self.types = types   # optional set of dotted class names
        self.site = site

    def d_key(self):
        if self.op in ('sym', 'fresh'):
            return (self.op, self.args[0] if self.args else None,
                    self.uid if self.op == 'fresh' else 0, self.version)
        return (self.op, tuple(key_of(a) for a in self.args),
                tuple(sorted((k, key_of(v)) for k, v in self.kwargs.items())),
                self.version)

    def __repr__(self):
        if self.op in ('sym', 'fresh'):
            return str(self.args[0]) if self.args else self.op
        if self.op == 'attr':
            return '%s.%s' % (short(self.args[0]), self.args[1])
        if self.op == 'mcall':
            return '%s.%s(%s)' % (short(self.args[0]), self.args[1],
                                  _argstr(self.args[2:], self.kwargs))
        if self.op == 'call':
            return '%s(%s)' % (short(self.args[0]),
                               _argstr(self.args[1:], self.kwargs))
        if self.op == 'item':
            return '%s[%s]' % (short(self.args[0]), short(self.args[1]))
        if self.op == 'strcat':
            return 'str(' + '+'.join(map(short, self.args)) + ')'
        if self.op in BINS:
            return '(%s %s %s)' % (short(self.args[0]), self.op,
                                   short(self.args[1]))
        return '%s(%s)' % (self.op, _argstr(self.args, self.kwargs))


BINS = {'+', '-', '*', '/', '//', '%', '**', '@', '&', '|', '^', '<<', '>>',
        '==', '!=', '<', '<=', '>', '>=', 'is', 'is not', 'in', 'not in'}


def _argstr(args, kwargs):
    return ', '.join([short(a) for a in args] +
                     ['%s=%s' % (k, short(v)) for k, v in kwargs.items()])


def short(v, n=160):
    s = repr(v)
    return s if len(s) <= n else s[:n - 3] + '...'


def key_of(v):
    if isinstance(v, Dom):
        return v.d_key()
    if isinstance(v, (AList,)):
        return ('list',) + tuple(key_of(x) for x in v.items)
    if isinstance(v, ASet):
        return ('set',) + tuple(sorted(map(repr, (key_of(x)
                                                  for x in v.items))))
    if isinstance(v, ADict):
        return ('dict',) + tuple((key_of(k), key_of(x)) for k, x in v.pairs)
    if isinstance(v, tuple):
        return ('tuple',) + tuple(key_of(x) for x in v)
    if isinstance(v, AObj):
        return ('obj', v.uid)
    if isinstance(v, Ext):
        return ('ext', v.name)
    if isinstance(v, Val):
        return ('val', id(v))
    return ('const', type(v).__name__, v)


def sym(name, types=None):
    return Opq('sym', (name,), types=types)


def fresh(name, types=None):
    return Opq('fresh', (name,), types=types)
