"""Models of the storage layer: pandas.HDFStore, pandas.read_csv, file
system."""
import ast

from values import Dom, Opq, Ext, AList, ADict, AObj, AGen, Native, short, \
    fresh, sym, Val
from domains import Lin, atom, lift, plain, sign, Mask, Rows, RowIndex, \
    between
from interp import ASlice, Undecided


class EmptyFrame(Dom):
    """pd.DataFrame() with attributes"""
    __slots__ = ('attrs',)

    def __init__(self):
        self.attrs = {}

    def __repr__(self):
        return 'DataFrame()'

    def d_getattr(self, I, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == 'empty':
            return True
        if name == 'index':
            return AList()
        return NotImplemented

    def d_setattr(self, I, name, value):
        self.attrs[name] = value

    def d_len(self, I):
        return 0


def m_dataframe(I, a, k):
    if not a and not k:
        return EmptyFrame()
    return NotImplemented


def parse_terms(I, terms):
    """where-terms -> list of (op, bound value), resolving variable names in
    the scope of the function that issues the query (as pandas does)."""
    if terms is None:
        return []
    if isinstance(terms, str):
        terms = AList([t for t in terms.split('&')])
    out = []
    for t in I.iterate(terms):
        if not isinstance(t, str):
            raise Undecided('where term %s' % short(t))
        try:
            e = ast.parse(t.strip(), mode='eval').body
        except SyntaxError:
            raise Undecided('where term %r' % t)
        if not (isinstance(e, ast.Compare) and len(e.ops) == 1):
            raise Undecided('where term %r' % t)
        from interp import CMPOP, FLIP
        op = CMPOP[type(e.ops[0])]
        l, r = e.left, e.comparators[0]
        if isinstance(r, ast.Name) and r.id == 'index':
            l, r, op = r, l, FLIP[op]
        if not (isinstance(l, ast.Name) and l.id == 'index'):
            raise Undecided('where term %r' % t)
        fr = [f for f in I.stack if f.func is not None][-1]
        from interp import AbstractRaise
        try:
            b = I.eval(r, fr.env)
        except AbstractRaise as x:
            n = x.exc.cls.name.rsplit('.', 1)[-1]
            if n in ('NameError', 'UnboundLocalError'):
                I.event('where-unresolved', term=t)
                I.throw('NameError', 'query variable in %r' % t)
            raise
        out.append((op, b))
    return out


class HStore(Dom):
    """pandas.HDFStore with one table: rows a..b of the selection."""
    __slots__ = ('name', 'cfg')

    def __init__(self, cfg=None, name='hdf'):
        self.name = name
        self.cfg = cfg or {}

    def __repr__(self):
        return '<HDFStore>'

    def d_method(self, I, name, args, kwargs):
        cfg = self.cfg
        I.event('store', op=name, args=tuple(args), kwargs=dict(kwargs),
                obj=self)
        I.fault(Opq('attr', (self, name)), args, kwargs)
        h = cfg.get(name)
        if h is not None:
            return h(I, args, kwargs)
        if name in ('flush', 'close', 'open', 'append', 'put', 'remove',
                    'create_table_index', '__setitem__'):
            return None
        return Opq('mcall', (self, name) + tuple(args), kwargs)

    def d_getitem(self, I, key):
        I.event('store', op='__getitem__', args=(key,), kwargs={}, obj=self)
        h = self.cfg.get('__getitem__')
        if h is not None:
            return h(I, [key], {})
        return NotImplemented

    def d_setitem(self, I, key, value):
        I.event('store', op='put', args=(key, value), kwargs={}, obj=self)
        I.fault(Opq('attr', (self, '__setitem__')), [key, value], {})
        return None

    def d_delitem(self, I, key):
        I.event('store', op='remove', args=(key,), kwargs={}, obj=self)
        return None

    def d_getattr(self, I, name):
        h = self.cfg.get(('attr', name))
        if h is not None:
            return h(I) if callable(h) else h
        return NotImplemented


class RowRange(Dom):
    """Rows start..stop (stop exclusive) of the stored table, as returned by
    HDFStore.select; `row_ts` maps a Lin row number to a time stamp."""
    __slots__ = ('start', 'stop', 'columns', 'attrs', 'row_ts', 'nrows')

    def __init__(self, start, stop, columns, row_ts, nrows=None):
        self.start, self.stop = start, stop
        self.columns = columns
        self.attrs = {}
        self.row_ts = row_ts
        self.nrows = nrows

    def __repr__(self):
        return 'rows[%s:%s]' % (short(self.start), short(self.stop))

    def d_getattr(self, I, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == 'index':
            return RangeIndex(self)
        if name == 'empty':
            return I.truth(I.compare('<=', self.d_len(I), 0))
        if name == 'rename':
            return Native(lambda I, a, k: self, name)
        return NotImplemented

    def d_setattr(self, I, name, value):
        self.attrs[name] = value
        I.event('setattr', obj=self, name=name, value=value)

    def d_len(self, I):
        d = lift(self.stop).add(lift(self.start), -1)
        r = plain(d)
        return r if not isinstance(r, (int, float)) else max(int(r), 0)


class RangeIndex(Dom):
    __slots__ = ('rows',)

    def d_isinstance(self, I, c):
        n = c.name.rsplit('.', 1)[-1] if isinstance(c, Ext) else ''
        return n in ('DatetimeIndex', 'Index', 'object')

    def d_getattr(self, I, name):
        if name in ('tz', 'tzinfo'):
            return None
        return NotImplemented

    def __init__(self, rows):
        self.rows = rows

    def d_len(self, I):
        return self.rows.d_len(I)

    def d_getitem(self, I, key):
        if isinstance(key, int):
            base = self.rows.start if key >= 0 else self.rows.stop
            n = I.truth(I.compare('>', self.rows.d_len(I), 0))
            if not n:
                I.throw('IndexError', 'index out of bounds')
            return self.rows.row_ts(I, plain(lift(base).add(lift(key))))
        return NotImplemented


class Coords(Dom):
    __slots__ = ('n', 'first', 'last', 'conds')

    def __init__(self, n, first, last, conds):
        self.n, self.first, self.last, self.conds = n, first, last, conds

    def d_len(self, I):
        return self.n

    def d_getattr(self, I, name):
        if name == 'size':
            return self.n
        if name == 'shape':
            return (self.n,)
        if name == 'min':
            return Native(lambda I, a, k: self.d_getitem(I, 0), name)
        if name == 'max':
            return Native(lambda I, a, k: self.d_getitem(I, -1), name)
        return NotImplemented

    def d_truth(self, I):
        return I.truth(I.compare('>', self.n, 0))

    def d_getitem(self, I, key):
        if isinstance(key, int):
            if not I.truth(I.compare('>', self.n, 0)):
                I.throw('IndexError', 'index out of bounds')
            if key == 0:
                return self.first
            if key == -1:
                return self.last
        return NotImplemented


class CsvRows(Rows):
    """Generic-row frame with length / boolean-list support."""
    __slots__ = ()

    def derive(self, present):
        r = CsvRows(self.t, self.present and present, self, self.name)
        return r

    def d_len(self, I):
        return RowLen(self)

    def d_getattr(self, I, name):
        if name == 'index':
            return self.attrs.get('index') or CsvIndex(self)
        if name == 'empty':
            return I.compare('==', RowLen(self), 0)
        if name == 'shape':
            return (RowLen(self), Opq('sym', ('ncols',)))
        return Rows.d_getattr(self, I, name)


class CsvIndex(RowIndex):
    __slots__ = ()

    def d_isinstance(self, I, c):
        n = c.name.rsplit('.', 1)[-1] if isinstance(c, Ext) else ''
        return n in ('DatetimeIndex', 'Index', 'object')

    def d_getattr(self, I, name):
        if name in ('tz', 'tzinfo'):
            return None
        return RowIndex.d_getattr(self, I, name) if hasattr(
            RowIndex, 'd_getattr') else NotImplemented

    def d_len(self, I):
        return RowLen(self.rows)

    def d_getitem(self, I, key):
        if isinstance(key, int):
            # at least two rows, in increasing order, around the generic row
            name = 'row%d@%s' % (key, short(self.rows.t))
            base = I.ranks.get(short(self.rows.t), 0)
            I.ranks[name] = base + (0.01 * key if key >= 0
                                    else 0.25 + 0.01 * key)
            return atom('ts', name)
        return NotImplemented


class RowLen(Dom):
    """length of a generic-row frame: > 0 when the generic row is present"""
    __slots__ = ('rows',)

    def __init__(self, rows):
        self.rows = rows

    def d_key(self):
        return ('rowlen', id(self.rows))

    def pos(self, I):
        if self.rows.present:
            return True
        k = ('rowlen', id(self.rows))
        if k not in I.facts:
            I.facts[k] = not I.choose(2, 'other rows present')
        return I.facts[k]

    def d_truth(self, I):
        return self.pos(I)

    def d_compare(self, I, op, other, swapped):
        if other == 0 or other is False:
            p = self.pos(I)
            return {'>': p, '!=': p, '==': not p, '<=': not p,
                    '>=': True, '<': False}.get(op, NotImplemented)
        if other == 1 and op in ('>=', '<'):
            p = self.pos(I)
            return p if op == '>=' else not p
        return NotImplemented

    def d_binop(self, I, op, other, swapped):
        if op == '*' and isinstance(other, AList) and \
                len(other.items) == 1 and isinstance(other.items[0], bool):
            return Mask(other.items[0])
        return NotImplemented


def m_ones(val):
    def f(I, a, k):
        if a and isinstance(a[0], RowLen):
            return Mask(val)
        return NotImplemented
    return f


def fs_models(present=True):
    return {
        'os.path.isfile': lambda I, a, k: present,
        'os.path.exists': lambda I, a, k: present,
        'os.path.isdir': lambda I, a, k: present,
        'os.makedirs': lambda I, a, k: None,
        'numpy.ones': m_ones(True),
        'numpy.zeros': m_ones(False),
        'pandas.DataFrame': m_dataframe,
        'warnings.catch_warnings': lambda I, a, k: AObj(
            Ext('contextlib.x'), {}, ('null',)),
    }
