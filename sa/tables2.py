"""Further methods of tables, series, arrays and indexes (see tables.py).
tools/modeldiff.py compares them with the installed libraries."""
import itertools
import math

from values import AList, ADict, Dom, Ext, Opq, Native, AGen, short, key_of
from interp import Undecided
from domains import Lin
import models as M
import tables as T
from tables import (Arr, Series, Frame, Idx, SER, FRM, COMMON, ARR, IDX, TM,
                    NAN, isnan, bop, cop, same, total, mean, arg, as_list,
                    toarr, order, inplace, mapped, ser, frm, com, tm, idxm,
                    ufunc1, ufunc2, reducer, dups)


def number(v):
    return isinstance(v, (bool, int, float)) or hasattr(v, 'numerator')


def plainnum(v):
    if isinstance(v, Lin) and not v.co:
        return v.const
    return v


def exact(f):
    """a function of one known number"""
    def g(I, v):
        v = plainnum(v)
        if not number(v):
            return Opq('fn', (getattr(f, '__name__', 'f'), v))
        return f(v)
    return g


# ------------------------------------------------------------- whole tables
def fills(step):
    def one(cells):
        out = list(cells)
        rng = range(len(out)) if step > 0 else range(len(out) - 1, -1, -1)
        last = NAN
        for i in rng:
            if isnan(out[i]):
                out[i] = last
            else:
                last = out[i]
        return out

    def f(I, o, a, k):
        if a or any(x != 'inplace' for x in k):
            return NotImplemented
        if isinstance(o, Series):
            return inplace(I, o, k, o.like(one(o.vals)))
        return inplace(I, o, k, Frame(o.idx, o.cols,
                                      [one(d) for d in o.data]))
    return f


COMMON['ffill'] = COMMON['pad'] = fills(1)
COMMON['bfill'] = COMMON['backfill'] = fills(-1)
_fillna = COMMON['fillna']


@com('fillna')
def _(I, o, a, k):
    m = k.get('method')
    if m is not None and not a and k.get('value') is None:
        n = {'ffill': 'ffill', 'pad': 'ffill', 'bfill': 'bfill',
             'backfill': 'bfill'}.get(m if isinstance(m, str) else None)
        if n:
            return COMMON[n](I, o, [], {x: y for x, y in k.items()
                                        if x == 'inplace'})
        return NotImplemented
    v = arg(a, k, 0, 'value')
    if isinstance(o, Frame) and isinstance(v, (ADict, Series)) and not \
            set(k) - {'value', 'inplace'}:
        by = v.pairs if isinstance(v, ADict) else list(
            zip(v.idx.labels, v.vals))
        data = []
        for c, d in zip(o.cols.labels, o.data):
            hit = [y for x, y in by if same(I, x, c)]
            data.append([hit[0] if hit and isnan(x) else x for x in d])
        return inplace(I, o, k, Frame(o.idx, o.cols, data))
    return _fillna(I, o, a, k)


@frm('transpose')
def _(I, o, a, k):
    return I.getattr(o, 'T')


def columnwise(n):
    """a method of a series, applied to every column"""
    def f(I, o, a, k):
        if k.get('axis') not in (None, 0, 'index'):
            return NotImplemented
        kk = {x: y for x, y in k.items() if x != 'axis'}
        cs = [SER[n](I, Series(d, o.idx), a, kk) for d in o.data]
        if any(not isinstance(c, Series) for c in cs):
            return NotImplemented
        return Frame(cs[0].idx if cs else o.idx, o.cols,
                     [c.vals for c in cs])
    return f


for _n in ('diff', 'shift', 'cumsum'):
    FRM[_n] = columnwise(_n)


@com('round')
def _(I, o, a, k):
    n = arg(a, k, 0, 'decimals', 0)
    if not isinstance(n, int):
        return NotImplemented
    return mapped(o, lambda c: c if isnan(c) else rounded(c, n))


def rounded(c, n):
    c = plainnum(c)
    if not number(c):
        return Opq('round', (c, n))
    return float(round(c, n)) if isinstance(c, float) else round(c, n)


@frm('assign')
def _(I, o, a, k):
    r = o.copy()
    for n, v in k.items():
        if not isinstance(v, Dom) and not isinstance(v, (AList, tuple)) \
                and not number(v) and not isinstance(v, str):
            v = I.call(v, [r], {})
        r.d_setitem(I, n, v)
    return r


@frm('sort_values')
def _(I, o, a, k):
    by = arg(a, k, 0, 'by')
    l = [by] if isinstance(by, (str, tuple)) or o.cols.find(I, by) else \
        as_list(I, by)
    asc = k.get('ascending', True)
    if l is None or not isinstance(asc, bool) or set(k) - {
            'by', 'ascending', 'inplace', 'axis', 'kind', 'ignore_index'}:
        return NotImplemented
    if k.get('axis') not in (None, 0, 'index'):
        return NotImplemented
    pos = list(range(len(o.idx.labels)))
    for c in reversed(l):
        f = o.cols.find(I, c)
        if len(f) != 1:
            if not f:
                I.throw('KeyError', c)
            return NotImplemented
        col = [o.data[f[0]][i] for i in pos]
        pos = [pos[i] for i in order(I, col, asc)]
    r = o.pick(pos)
    if k.get('ignore_index'):
        r.idx = Idx(list(range(len(pos))))
    return inplace(I, o, k, r)


def selecting(keep):
    def f(I, o, a, k):
        c, alt = arg(a, k, 0, 'cond'), arg(a, k, 1, 'other', NAN)
        if set(k) - {'cond', 'other', 'inplace'}:
            return NotImplemented
        if isinstance(c, (Ext, Native)) or not isinstance(c, (
                Frame, Series, Arr, AList)):
            if isinstance(c, Dom):
                return NotImplemented
            c = I.call(c, [o], {})
        if isinstance(o, Series):
            cells = conds(I, o, c)
            if cells is None:
                return NotImplemented
            alts = align1(I, o, alt)
            if alts is None:
                return NotImplemented
            return inplace(I, o, k, o.like([
                v if b == keep else w
                for v, b, w in zip(o.vals, cells, alts)]))
        if isinstance(c, Series):
            if k.get('axis') is not None:
                return NotImplemented
            b = [conds(I, Series(d, o.idx), c) for d in o.data]
        elif isinstance(c, Arr) and c.shape == (len(o.idx.labels),
                                                len(o.data)):
            m = len(o.data)
            b = [[c.cells[i * m + j] for i in range(len(o.idx.labels))]
                 for j in range(m)]
        elif isinstance(c, Frame):
            b = []
            for n, d in zip(o.cols.labels, o.data):
                f = c.cols.find(I, n)
                if len(f) > 1:
                    return NotImplemented
                b.append(conds(I, Series(d, o.idx), c.column(f[0]))
                         if f else [not keep] * len(d))
        else:
            return NotImplemented
        if any(x is None for x in b) or isinstance(alt, (Arr, AList, Series,
                                                         Opq)):
            return NotImplemented
        data = []
        for j, (d, bs) in enumerate(zip(o.data, b)):
            if isinstance(alt, Frame):
                f = alt.cols.find(I, o.cols.labels[j])
                w = align1(I, Series(d, o.idx), alt.column(f[0])) \
                    if len(f) == 1 else [NAN] * len(d)
                if w is None:
                    return NotImplemented
            else:
                w = [alt] * len(d)
            data.append([v if x == keep else y
                         for v, x, y in zip(d, bs, w)])
        return inplace(I, o, k, Frame(o.idx, o.cols, data))
    return f


def conds(I, o, c):
    """the boolean cells of a condition, for the rows of a series"""
    if isinstance(c, Series):
        out = []
        for l in o.idx.labels:
            f = c.idx.find(I, l)
            if len(f) > 1:
                return None
            out.append(c.vals[f[0]] if f else False)
    else:
        out = as_list(I, c)
        if out is None or len(out) != len(o.vals):
            return None
    if not all(isinstance(x, bool) for x in out):
        out = [I.truth(x) for x in out]
    return out


def align1(I, o, v):
    if isinstance(v, Series):
        out = []
        for l in o.idx.labels:
            f = v.idx.find(I, l)
            if len(f) > 1:
                return None
            out.append(v.vals[f[0]] if f else NAN)
        return out
    if isinstance(v, (Arr, AList)):
        l = as_list(I, v)
        return l if l is not None and len(l) == len(o.vals) else None
    if isinstance(v, (Opq, Frame)):
        return None
    return [v] * len(o.vals)


COMMON['where'], COMMON['mask'] = selecting(True), selecting(False)
SER.pop('where', None)


def comparing(op):
    def f(I, o, a, k):
        v = arg(a, k, 0, 'other')
        if set(k) - {'other'} or len(a) > 1:
            return NotImplemented
        return I.compare(op, o, v)
    return f


for _n, _o in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('gt', '>'),
               ('le', '<='), ('ge', '>=')):
    COMMON[_n] = comparing(_o)


@ser('between')
def _(I, o, a, k):
    if len(a) < 2 or k or len(a) > 2:
        return NotImplemented
    return o.like([not isnan(v) and cop(I, '>=', v, a[0]) and
                   cop(I, '<=', v, a[1]) for v in o.vals])


def distinct(I, cells):
    out = []
    for c in cells:
        if not isnan(c) and not any(same(I, c, x) for x in out):
            out.append(c)
    return out


def median(I, cells, skipna=True):
    ok = [c for c in cells if not isnan(c)]
    if not ok or (not skipna and len(ok) < len(cells)):
        return NAN
    s = [ok[i] for i in order(I, ok)]
    n = len(s)
    if n % 2:
        return s[n // 2]
    return bop(I, '/', bop(I, '+', s[n // 2 - 1], s[n // 2]), 2)


def product(I, cells, skipna=True):
    r = 1
    for c in cells:
        if isnan(c):
            if skipna:
                continue
            return NAN
        r = bop(I, '*', r, c)
    return r


def variance(I, cells, ddof):
    ok = [c for c in cells if not isnan(c)]
    if len(ok) - ddof <= 0:
        return NAN
    m = mean(I, ok)
    d = [bop(I, '-', c, m) for c in ok]
    return bop(I, '/', total(I, [bop(I, '*', x, x) for x in d]),
               len(ok) - ddof)


def root(I, v):
    v = plainnum(v)
    if isnan(v):
        return v
    return math.sqrt(v) if number(v) and v >= 0 else Opq('sqrt', (v,))


reducer('median', median)
reducer('prod', product)
reducer('product', product)
reducer('nunique', lambda I, c, s: len(distinct(I, c)))
reducer('var', lambda I, c, s: variance(I, c, 1))
reducer('std', lambda I, c, s: root(I, variance(I, c, 1)))


@com('agg', 'aggregate')
def _(I, o, a, k):
    f = arg(a, k, 0, 'func')
    if isinstance(f, str) and f in ('sum', 'mean', 'min', 'max', 'count',
                                    'median', 'prod', 'nunique', 'any',
                                    'all', 'std', 'var', 'idxmax', 'idxmin'):
        return I.call_method(o, f, list(a[1:]),
                             {x: y for x, y in k.items() if x != 'func'})
    return NotImplemented


@com('pipe')
def _(I, o, a, k):
    if isinstance(a[0], tuple):
        return NotImplemented
    return I.call(a[0], [o] + list(a[1:]), k)


@frm('isin')
def _(I, o, a, k):
    l = None if isinstance(a[0], (Frame, Series, ADict)) else \
        as_list(I, a[0])
    if l is None:
        return NotImplemented
    return mapped(o, lambda c: any(same(I, c, x) for x in l))


def rowdups(I, o, keep='first'):
    rows = [tuple(d[i] for d in o.data) for i in range(len(o.idx.labels))]

    def eq(x, y):
        return all((isnan(p) and isnan(q)) or (
            not isnan(p) and not isnan(q) and same(I, p, q))
            for p, q in zip(x, y))
    n = len(rows)
    if keep == 'first':
        return [any(eq(rows[i], rows[j]) for j in range(i))
                for i in range(n)]
    if keep == 'last':
        return [any(eq(rows[i], rows[j]) for j in range(i + 1, n))
                for i in range(n)]
    return [any(eq(rows[i], rows[j]) for j in range(n) if j != i)
            for i in range(n)]


@frm('duplicated')
def _(I, o, a, k):
    if a or set(k) - {'keep'}:
        return NotImplemented
    return Series(rowdups(I, o, k.get('keep', 'first')), o.idx)


@frm('drop_duplicates')
def _(I, o, a, k):
    if a or set(k) - {'keep', 'inplace', 'subset'}:
        return NotImplemented
    of = o
    if k.get('subset') is not None:
        s = k['subset']
        l = as_list(I, s) if not isinstance(s, (str, tuple)) else None
        of = o.d_getitem(I, AList(list(l)) if l is not None else AList([s]))
        if not isinstance(of, Frame):
            return NotImplemented
    d = rowdups(I, of, k.get('keep', 'first'))
    return inplace(I, o, k, o.pick([i for i, b in enumerate(d) if not b]))


@frm('join')
def _(I, o, a, k):
    other = arg(a, k, 0, 'other')
    how = arg(a, k, 2, 'how', 'left')
    if isinstance(other, Series):
        other = Frame(other.idx, Idx([other.name]), [other.vals])
    if not isinstance(other, Frame) or set(k) - {
            'other', 'how', 'lsuffix', 'rsuffix'} or \
            len(a) > 1 or how not in ('left', 'inner', 'outer'):
        return NotImplemented
    both = [c for c in other.cols.labels if o.cols.find(I, c)]
    if both:
        ls, rs = k.get('lsuffix', ''), k.get('rsuffix', '')
        if not all(isinstance(x, str) for x in (ls, rs)):
            return NotImplemented
        if not ls and not rs:
            I.throw('ValueError', 'columns overlap but no suffix specified')
        if not all(isinstance(c, str) for c in both):
            return NotImplemented
        o = Frame(o.idx, o.cols.like([
            c + ls if c in both else c for c in o.cols.labels]), o.data)
        other = Frame(other.idx, other.cols.like([
            c + rs if c in both else c for c in other.cols.labels]),
            other.data)
    if how == 'outer':
        return TM['pandas.concat'](I, [AList([o, other])], {'axis': 1})
    lab, left, right = [], [], []
    for i, l in enumerate(o.idx.labels):
        f = other.idx.find(I, l)
        if len(f) > 1:
            return NotImplemented
        if f or how == 'left':
            lab.append(l)
            left.append(i)
            right.append(f[0] if f else None)
    return Frame(o.idx.like(lab),
                 o.cols.like(o.cols.labels + other.cols.labels),
                 [[d[i] for i in left] for d in o.data] +
                 [[NAN if i is None else d[i] for i in right]
                  for d in other.data])


def validrow(rev):
    def f(I, o, a, k):
        n = range(len(o.idx.labels))
        for i in (reversed(n) if rev else n):
            if any(not isnan(d[i]) for d in o.data):
                return o.idx.labels[i]
        return None
    return f


FRM['first_valid_index'] = validrow(False)
FRM['last_valid_index'] = validrow(True)
_concat = TM['pandas.concat']


@tm('pandas.concat')
def _(I, a, k):
    objs, keys = arg(a, k, 0, 'objs'), k.get('keys')
    ax = arg(a, k, 1, 'axis', 0)
    rest = {x: y for x, y in k.items() if x not in ('objs', 'keys', 'axis')}
    if isinstance(objs, ADict) and keys is None:
        keys = AList([x for x, _ in objs.pairs])
        objs = AList([y for _, y in objs.pairs])
    if keys is not None:
        l, ks = as_list(I, objs), as_list(I, keys)
        if l is None or ks is None or len(l) != len(ks) or ax not in (
                1, 'columns') or not all(isinstance(x, Series) for x in l):
            return NotImplemented
        l = [Series(list(x.vals), x.idx, n) for x, n in zip(l, ks)]
        return _concat(I, [AList(l)], dict(rest, axis=1))
    return _concat(I, a, k)


@ser('value_counts')
def _(I, o, a, k):
    if a or k:
        return NotImplemented
    d = distinct(I, o.vals)
    n = [len([v for v in o.vals if not isnan(v) and same(I, v, x)])
         for x in d]
    p = sorted(range(len(d)), key=lambda i: -n[i])
    return Series([n[i] for i in p], Idx([d[i] for i in p]))


@ser('drop')
def _(I, o, a, k):
    l = arg(a, k, 0, 'labels', k.get('index'))
    if set(k) - {'labels', 'index', 'inplace', 'errors'}:
        return NotImplemented
    ls = as_list(I, l) if isinstance(l, (AList, Arr, Idx, Series)) else [l]
    if ls is None:
        return NotImplemented
    gone = set()
    for x in ls:
        f = o.idx.find(I, x)
        if not f and k.get('errors') != 'ignore':
            I.throw('KeyError', x)
        gone.update(f)
    return inplace(I, o, k, o.take([i for i in range(len(o.vals))
                                    if i not in gone]))


@ser('quantile')
def _(I, o, a, k):
    q = arg(a, k, 0, 'q', .5)
    if not number(q) or set(k) - {'q'}:
        return NotImplemented
    return quantile(I, o.vals, q)


def quantile(I, cells, q):
    ok = [c for c in cells if not isnan(c)]
    if not ok:
        return NAN
    s = [ok[i] for i in order(I, ok)]
    x = q * (len(s) - 1)
    i = int(math.floor(x))
    j = min(i + 1, len(s) - 1)
    return bop(I, '+', s[i], bop(I, '*', bop(I, '-', s[j], s[i]), x - i))


def nextreme(asc):
    def f(I, o, a, k):
        n = arg(a, k, 0, 'n', 5)
        if not isinstance(n, int) or set(k) - {'n'}:
            return NotImplemented
        p = [i for i in order(I, o.vals, asc) if not isnan(o.vals[i])]
        return o.take(p[:n])
    return f


SER['nlargest'], SER['nsmallest'] = nextreme(False), nextreme(True)


@ser('update')
def _(I, o, a, k):
    if not isinstance(a[0], Series):
        raise Undecided('update')
    I.event('mutate', obj=o, how='update')
    for l, v in zip(a[0].idx.labels, a[0].vals):
        if not isnan(v):
            for i in o.idx.find(I, l):
                o.vals[i] = v


@frm('update')
def _(I, o, a, k):
    raise Undecided('update of a table')


@frm('xs')
def _(I, o, a, k):
    if arg(a, k, 1, 'axis', 0) not in (1, 'columns') or set(k) - {
            'key', 'axis'}:
        return NotImplemented
    return o.d_getitem(I, arg(a, k, 0, 'key'))


@frm('droplevel')
def _(I, o, a, k):
    if arg(a, k, 1, 'axis', 0) not in (1, 'columns'):
        return NotImplemented
    c = IDX['droplevel'](I, o.cols, [arg(a, k, 0, 'level')], {})
    if not isinstance(c, Idx):
        return NotImplemented
    return Frame(o.idx, c, [list(d) for d in o.data])


# -------------------------------------------------------------------- indexes
@idxm('equals')
def _(I, o, a, k):
    l = as_list(I, a[0]) if isinstance(a[0], (Idx, Arr)) else None
    if l is None:
        return NotImplemented
    return len(l) == len(o.labels) and all(
        same(I, x, y) for x, y in zip(l, o.labels))


@idxm('searchsorted')
def _(I, o, a, k):
    return TM['numpy.searchsorted'](I, [Arr(o.labels)] + list(a), k)


@idxm('to_series')
def _(I, o, a, k):
    if a or k:
        return NotImplemented
    return Series(list(o.labels), o)


@idxm('nunique')
def _(I, o, a, k):
    return len(distinct(I, o.labels))


# --------------------------------------------------------------------- arrays
def arrm(*names):
    def d(f):
        for n in names:
            ARR[n] = f
        return f
    return d


def areduce(name, f, np=None):
    def g(I, o, a, k):
        ax = arg(a, k, 0, 'axis')
        if set(k) - {'axis'}:
            return NotImplemented
        if ax is None:
            return f(I, o.cells)
        if o.ndim == 1 and ax in (0, -1):
            return f(I, o.cells)
        if o.ndim != 2 or ax not in (0, 1, -1):
            return NotImplemented
        n, m = o.shape
        if ax == 0:
            return Arr([f(I, [o.cells[i * m + j] for i in range(n)])
                        for j in range(m)])
        return Arr([f(I, o.cells[i * m:(i + 1) * m]) for i in range(n)])

    def h(I, a, k):
        if isinstance(a[0], (Series, Frame)) and not isinstance(
                a[0], Frame):
            return f(I, a[0].vals)
        o = None if isinstance(a[0], Frame) else toarr(I, a[0])
        return NotImplemented if o is None else g(I, o, list(a[1:]), k)
    if np is None:
        ARR[name] = g
    TM['numpy.' + (np or name)] = h


areduce('prod', lambda I, c: product(I, c, False))
areduce('std', lambda I, c: root(I, variance(I, c, 0)))
areduce('var', lambda I, c: variance(I, c, 0))
areduce('median', lambda I, c: median(I, c, False), 'median')
areduce('nanmax', lambda I, c: T.extreme(I, c, '>'), 'nanmax')
areduce('nanmin', lambda I, c: T.extreme(I, c, '<'), 'nanmin')
areduce('nanmedian', median, 'nanmedian')
areduce('nanprod', product, 'nanprod')


@tm('numpy.average')
def _(I, a, k):
    w = arg(a, k, 2, 'weights')
    if set(k) - {'weights', 'axis'} or (arg(a, k, 1, 'axis') is not None):
        return NotImplemented
    if w is None:
        return TM['numpy.mean'](I, a[:1], {})
    x, w = toarr(I, a[0]), toarr(I, w)
    if x is None or w is None or x.shape != w.shape:
        return NotImplemented
    return bop(I, '/', total(I, [bop(I, '*', p, q) for p, q in zip(
        x.cells, w.cells)], False), total(I, w.cells, False))


for _n, _f in (('rint', lambda v: float(round(v))),
               ('floor', lambda v: float(math.floor(v))),
               ('ceil', lambda v: float(math.ceil(v))),
               ('trunc', lambda v: float(math.trunc(v))),
               ('sign', lambda v: (v > 0) - (v < 0)),
               ('exp', math.exp), ('log', lambda v: math.log(v) if v > 0
                                   else (-math.inf if v == 0 else NAN)),
               ('log2', lambda v: math.log(v, 2) if v > 0
                else (-math.inf if v == 0 else NAN)),
               ('log10', lambda v: math.log10(v) if v > 0
                else (-math.inf if v == 0 else NAN))):
    if 'numpy.' + _n not in TM and _n not in ('floor', 'ceil', 'exp',
                                              'log', 'log2', 'log10'):
        TM['numpy.' + _n] = ufunc1(exact(_f))
    elif 'numpy.' + _n not in TM:
        def _mk(f, n):
            u = ufunc1(exact(f))
            old = M.MODELS.get('numpy.' + n)

            def g(I, a, k):
                if isinstance(a[0], (Lin, Opq)) or (number(a[0]) and old):
                    return old(I, a, k) if old else NotImplemented
                return u(I, a, k)
            return g
        TM['numpy.' + _n] = _mk(_f, _n)
TM['numpy.negative'] = ufunc1(lambda I, v: I.unop('-', v))


@arrm('round')
def _round(I, o, a, k):
    n = arg(a, k, 0, 'decimals', 0)
    if not isinstance(n, int):
        return NotImplemented
    return Arr([c if isnan(c) else rounded(c, n) for c in o.cells], o.shape)


@tm('numpy.round')
def _(I, a, k):
    x = a[0]
    n = arg(a, k, 1, 'decimals', 0)
    if number(plainnum(x)) and isinstance(n, int):
        return x if isnan(x) else rounded(x, n)
    if isinstance(x, (Series, Frame)):
        return I.call_method(x, 'round', [n], {})
    o = toarr(I, x)
    return NotImplemented if o is None else _round(I, o, [n], {})


TM['numpy.around'] = TM['numpy.round']
TM['numpy.floor_divide'] = ufunc2(lambda I, x, y: bop(I, '//', x, y))
TM['numpy.mod'] = TM['numpy.remainder'] = ufunc2(
    lambda I, x, y: bop(I, '%', x, y))
for _n, _o in (('greater', '>'), ('less', '<'), ('equal', '=='),
               ('not_equal', '!='), ('greater_equal', '>='),
               ('less_equal', '<=')):
    def _mk2(op):
        def g(I, a, k):
            if k or len(a) != 2:
                return NotImplemented
            x, y = a
            if isinstance(x, (AList, tuple)):
                x = toarr(I, x)
            if isinstance(x, (Arr, Series, Frame, Idx)) or isinstance(
                    y, (Arr, Series, Frame, Idx)):
                return I.compare(op, x, y)
            return NotImplemented
        return g
    TM['numpy.' + _n] = _mk2(_o)
TM['numpy.logical_xor'] = T.logical(lambda x, y: bool(x) != bool(y))


def scan(f):
    def g(I, a, k):
        o = toarr(I, a[0])
        if o is None or k or len(a) > 1:
            return NotImplemented
        out = []
        for c in o.cells:
            out.append(c if not out else f(I, out[-1], c))
        return Arr(out)
    return g


TM['numpy.cumprod'] = scan(lambda I, x, y: bop(I, '*', x, y))


def overarr(f):
    def g(I, a, k):
        o = toarr(I, a[0]) if a else None
        return NotImplemented if o is None else f(I, o, list(a[1:]), k)
    return g


TM['numpy.flatnonzero'] = overarr(lambda I, o, a, k: Arr(
    [i for i, c in enumerate(o.cells) if I.truth(c)]))


@tm('numpy.argwhere')
def _(I, a, k):
    o = toarr(I, a[0])
    if o is None or o.ndim > 2:
        return NotImplemented
    hit = [i for i, c in enumerate(o.cells) if I.truth(c)]
    if o.ndim == 1:
        return Arr(hit, (len(hit), 1))
    m = o.shape[1]
    return Arr([y for i in hit for y in (i // m, i % m)], (len(hit), 2))


def finite(inf):
    def f(c):
        if isnan(c):
            return False
        c = plainnum(c)
        isinf = isinstance(c, float) and math.isinf(c)
        return isinf if inf else not isinf

    def g(I, a, k):
        v = a[0]
        if isinstance(v, (Series, Frame)):
            return mapped(v, f)
        o = toarr(I, v)
        if o is not None:
            return Arr([f(c) for c in o.cells], o.shape, 'bool')
        if number(v) or isinstance(v, Lin):
            return f(v)
        return NotImplemented
    return g


TM['numpy.isfinite'] = TM['math.isfinite'] = finite(False)
TM['numpy.isinf'] = TM['math.isinf'] = finite(True)
TM['math.isnan'] = lambda I, a, k: isnan(a[0]) \
    if number(a[0]) or isinstance(a[0], Lin) or isinstance(a[0], Ext) \
    else NotImplemented
TM['numpy.inner'] = lambda I, a, k: TM['numpy.dot'](I, a, k)


@tm('numpy.stack')
def _(I, a, k):
    l = as_list(I, a[0])
    ax = arg(a, k, 1, 'axis', 0)
    if l is None or not l:
        return NotImplemented
    l = [toarr(I, x) for x in l]
    if any(x is None or x.ndim != 1 for x in l) or len(
            {x.shape for x in l}) != 1:
        return NotImplemented
    n, m = len(l), l[0].shape[0]
    if ax == 0:
        return Arr([c for x in l for c in x.cells], (n, m))
    if ax in (1, -1):
        return Arr([x.cells[i] for i in range(m) for x in l], (m, n))
    return NotImplemented


@tm('numpy.column_stack')
def _(I, a, k):
    return TM['numpy.stack'](I, [a[0]], {'axis': 1})


@tm('numpy.insert')
def _(I, a, k):
    o = toarr(I, a[0])
    if o is None or o.ndim != 1 or not isinstance(a[1], int) or k or len(
            a) != 3 or toarr(I, a[2]) is not None:
        return NotImplemented
    c = list(o.cells)
    c.insert(a[1] if a[1] >= 0 else len(c) + a[1], a[2])
    return Arr(c)


@tm('numpy.delete')
def _(I, a, k):
    o = toarr(I, a[0])
    if o is None or o.ndim != 1 or k or len(a) != 2:
        return NotImplemented
    p = o.picks(I, a[1], len(o.cells))
    p = {p} if isinstance(p, int) else set(p)
    return Arr([c for i, c in enumerate(o.cells) if i not in p])


@tm('numpy.repeat')
def _(I, a, k):
    o = toarr(I, a[0])
    n = arg(a, k, 1, 'repeats')
    if not isinstance(n, int) or set(k) - {'repeats'} or len(a) > 2:
        return NotImplemented
    if o is None:
        return Arr([a[0]] * n) if number(a[0]) else NotImplemented
    return Arr([c for c in o.cells for _ in range(n)])


@tm('numpy.flip', 'numpy.flipud')
def _(I, a, k):
    o = toarr(I, a[0])
    if o is None or o.ndim != 1 or k or len(a) > 1:
        return NotImplemented
    return Arr(list(reversed(o.cells)))


@tm('numpy.full_like')
def _(I, a, k):
    o = toarr(I, a[0])
    if o is None or toarr(I, a[1]) is not None:
        return NotImplemented
    return Arr([a[1]] * len(o.cells), o.shape)


@tm('numpy.linspace')
def _(I, a, k):
    n = arg(a, k, 2, 'num', 50)
    if not isinstance(n, int) or not all(number(x) for x in a[:2]) or set(
            k) - {'num'} or n > 500:
        return NotImplemented
    if n == 1:
        return Arr([float(a[0])])
    return Arr([a[0] + (a[1] - a[0]) * i / (n - 1.) for i in range(n)])


@tm('numpy.isin', 'numpy.in1d')
def _(I, a, k):
    o, l = toarr(I, a[0]), toarr(I, a[1])
    if o is None or l is None or k:
        return NotImplemented
    return Arr([any(cop(I, '==', c, x) for x in l.cells) for c in o.cells],
               o.shape, 'bool')


@tm('numpy.array_equal')
def _(I, a, k):
    x, y = toarr(I, a[0]), toarr(I, a[1])
    if x is None or y is None or k:
        return NotImplemented
    return x.shape == y.shape and all(
        cop(I, '==', p, q) for p, q in zip(x.cells, y.cells))


def near(I, x, y, k):
    rtol, atol = k.get('rtol', 1e-5), k.get('atol', 1e-8)
    d = plainnum(bop(I, '-', x, y))
    y = plainnum(y)
    if isnan(d):
        return False
    if not number(d):
        return cop(I, '==', x, y)
    if not number(y):
        if d == 0:
            return True
        raise Undecided('isclose')
    return abs(d) <= atol + rtol * abs(y)


@tm('numpy.isclose')
def _(I, a, k):
    if len(a) > 2 or set(k) - {'rtol', 'atol'}:
        return NotImplemented
    o = toarr(I, a[0])
    if o is None:
        if toarr(I, a[1]) is None:
            return near(I, a[0], a[1], k)
        o = toarr(I, a[1])
        ps, sh = o.broadcast(I, a[0])
        return Arr([near(I, q, p, k) for p, q in ps], sh, 'bool')
    ps, sh = o.broadcast(I, a[1])
    return Arr([near(I, p, q, k) for p, q in ps], sh, 'bool')


@tm('numpy.allclose')
def _(I, a, k):
    r = TM['numpy.isclose'](I, a, k)
    if isinstance(r, Arr):
        return all(r.cells)
    return r


@tm('numpy.transpose')
def _(I, a, k):
    o = toarr(I, a[0])
    if o is None or isinstance(a[0], Frame) or len(a) > 1 or k:
        return NotImplemented
    return I.getattr(o, 'T')


TM['numpy.size'] = overarr(lambda I, o, a, k: len(o.cells)
                           if not a and not k else NotImplemented)
TM['numpy.ndim'] = overarr(lambda I, o, a, k: o.ndim)
_atleast = TM['numpy.atleast_1d']
TM['numpy.atleast_1d'] = lambda I, a, k: Arr([a[0]]) \
    if number(a[0]) or isinstance(a[0], Lin) else _atleast(I, a, k)


@tm('numpy.digitize')
def _(I, a, k):
    o, b = toarr(I, a[0]), toarr(I, a[1])
    if o is None or b is None or k or len(a) > 2:
        return NotImplemented
    return Arr([len([x for x in b.cells if cop(I, '<=', x, c)])
                for c in o.cells])


@tm('numpy.bincount')
def _(I, a, k):
    o = toarr(I, a[0])
    if o is None or k or len(a) > 1 or not all(
            isinstance(c, int) for c in o.cells):
        return NotImplemented
    return Arr([o.cells.count(i) for i in range(max(o.cells or [-1]) + 1)])


@tm('numpy.expand_dims')
def _(I, a, k):
    o, ax = toarr(I, a[0]), arg(a, k, 1, 'axis')
    if o is None or o.ndim != 1 or ax not in (0, 1, -1):
        return NotImplemented
    n = len(o.cells)
    return o.view(range(n), (1, n) if ax == 0 else (n, 1))


@tm('numpy.nan_to_num')
def _(I, a, k):
    if k or len(a) > 1:
        return NotImplemented
    o = toarr(I, a[0])
    if o is None:
        return NotImplemented
    return Arr([0. if isnan(c) else c for c in o.cells], o.shape)


@tm('numpy.linalg.norm')
def _(I, a, k):
    o = toarr(I, a[0])
    if o is None or o.ndim != 1 or k or len(a) > 1:
        return NotImplemented
    return root(I, total(I, [bop(I, '*', c, c) for c in o.cells], False))


@tm('numpy.arange')
def _(I, a, k):
    if k or not a or not all(isinstance(x, (int, float)) for x in a):
        r = M.MODELS['builtins.range'](I, a, {}) if not k else \
            NotImplemented
        return r
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else \
        (a[0], a[1], a[2] if len(a) > 2 else 1)
    if st == 0:
        I.throw('ZeroDivisionError', 'arange')
    n = max(0, int(math.ceil((hi - lo) / st)))
    if n > 3000:
        raise Undecided('long arange')
    return Arr([lo + i * st for i in range(n)])


@arrm('sort')
def _(I, o, a, k):
    if a or k or o.ndim != 1:
        raise Undecided('sort in place')
    I.event('mutate', obj=o, how='sort')
    c = o.cells
    for i, v in enumerate([c[j] for j in order(I, c)]):
        o.write(i, v)


@arrm('resize', 'put', 'partition', 'itemset', 'setfield')
def _(I, o, a, k):
    raise Undecided('array changed in place')


@arrm('repeat')
def _(I, o, a, k):
    return TM['numpy.repeat'](I, [o] + list(a), k)


@arrm('transpose')
def _(I, o, a, k):
    return NotImplemented if a or k else I.getattr(o, 'T')


@arrm('item')
def _(I, o, a, k):
    if a or len(o.cells) != 1:
        return NotImplemented
    return o.cells[0]


@arrm('searchsorted')
def _(I, o, a, k):
    return TM['numpy.searchsorted'](I, [o] + list(a), k)


# ----------------------------------------------------------- standard library
def listed(I, v):
    return list(I.iterate(v))


@tm('itertools.accumulate')
def _(I, a, k):
    f = arg(a, k, 1, 'func')
    out = []
    if 'initial' in k and k['initial'] is not None:
        out.append(k['initial'])
    for x in listed(I, a[0]):
        out.append(x if not out else (
            I.binop('+', out[-1], x) if f is None else
            I.call(f, [out[-1], x], {})))
    return AGen(iter(out))


@tm('itertools.groupby')
def _(I, a, k):
    f = arg(a, k, 1, 'key')
    out = []
    for x in listed(I, a[0]):
        y = x if f is None else I.call(f, [x], {})
        if out and I.truth(I.compare('==', out[-1][0], y)):
            out[-1][1].append(x)
        else:
            out.append((y, [x]))
    return AGen(iter([(y, AGen(iter(g))) for y, g in out]))


def bisector(left):
    def f(I, a, k):
        if k or len(a) != 2:
            return NotImplemented
        n = 0
        for c in listed(I, a[0]):
            if cop(I, '<' if left else '<=', c, a[1]):
                n += 1
            else:
                break
        return n
    return f


TM['bisect.bisect_left'] = bisector(True)
TM['bisect.bisect_right'] = TM['bisect.bisect'] = bisector(False)


@tm('bisect.insort', 'bisect.insort_right', 'bisect.insort_left')
def _(I, a, k):
    raise Undecided('insort')


# ----------------------------------------------------------------------- time
@idxm('total_seconds')
def _(I, o, a, k):
    return Idx([secs(I, x) for x in o.labels])


def secs(I, x):
    if isnan(x):
        return NAN
    if isinstance(x, Lin) and x.kind == 'td':
        return I.call_method(x, 'total_seconds', [], {})
    raise Undecided('total_seconds of %s' % short(x))


class Dt(Dom):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def d_getattr(self, I, n):
        if n == 'total_seconds':
            return Native(lambda I, a, k: self.s.like(
                [secs(I, x) for x in self.s.vals]), n)
        return NotImplemented


_sget = Series.d_getattr


def sget(self, I, name):
    if name == 'dt' and 'dt' not in self.attrs:
        return Dt(self)
    return _sget(self, I, name)


Series.d_getattr = sget
_astype = ARR['astype']


@arrm('astype')
def _(I, o, a, k):
    t = a[0] if a else k.get('dtype')
    if isinstance(t, str) and t.startswith(('timedelta64', '<m8', 'm8')) \
            and all(isinstance(c, Lin) and c.kind == 'td' and not c.co and
                    c.const == int(c.const) for c in o.cells) and \
            t.rstrip(']').endswith(('[s', '[ms', '[us', '[ns')):
        return Arr(list(o.cells), o.shape)
    return _astype(I, o, a, k)


# ------------------------------------------------------------------- grouping
class Grouped(T.Groups):
    __slots__ = ()

    def d_getattr(self, I, name):
        if name == 'size':
            return Native(lambda I, a, k: Series(
                [len(p) for _, p in self.keys],
                Idx([x for x, _ in self.keys])), name)
        if name in ('median', 'prod', 'std', 'var', 'nunique', 'first',
                    'last', 'any', 'all'):
            def f(I, a, k):
                if a or k:
                    raise Undecided('groupby')

                def one(cells):
                    if name in ('first', 'last'):
                        ok = [c for c in cells if not isnan(c)]
                        return (ok[0 if name == 'first' else -1]
                                if ok else NAN)
                    return SER[name](I, Series(cells), [], {})
                ix = Idx([x for x, _ in self.keys])
                if isinstance(self.o, Series):
                    return Series([one([self.o.vals[i] for i in p])
                                   for _, p in self.keys], ix, self.o.name)
                return Frame(ix, self.o.cols, [
                    [one([d[i] for i in p]) for _, p in self.keys]
                    for d in self.o.data])
            return Native(f, name)
        return T.Groups.d_getattr(self, I, name)

    def d_getitem(self, I, key):
        if not isinstance(self.o, Frame) or isinstance(key, Opq):
            return NotImplemented
        g = Grouped(I, self.o, [])
        g.o, g.keys = self.o.d_getitem(I, key), self.keys
        return g


def grouping(I, o, a, k):
    by, level = arg(a, k, 0, 'by'), k.get('level')
    if set(k) - {'by', 'level', 'sort', 'as_index'} or len(a) > 1 or \
            k.get('sort') is False or k.get('as_index') is False:
        return NotImplemented
    if by is None:
        if level != 0 or o.idx.multi():
            return NotImplemented
        return Grouped(I, o, list(o.idx.labels))
    if isinstance(by, Series):
        keys = []
        for l in o.idx.labels:
            f = by.idx.find(I, l)
            if len(f) != 1:
                return NotImplemented
            keys.append(by.vals[f[0]])
        return Grouped(I, o, keys)
    if isinstance(by, (Arr, Idx)) or isinstance(by, AList) and len(
            by.items) == len(o.idx.labels) and isinstance(o, Series):
        l = as_list(I, by)
        if l is None or len(l) != len(o.idx.labels):
            return NotImplemented
        return Grouped(I, o, l)
    if isinstance(o, Frame) and not isinstance(by, (Dom, AList)):
        f = o.cols.find(I, by)
        if len(f) == 1:
            g = Grouped(I, o, list(o.data[f[0]]))
            g.o = o.pick(None, [j for j in range(len(o.data))
                                if j != f[0]])
            return ByColumn(g, o)
    return NotImplemented


class ByColumn(Dom):
    """groups of a frame by one of its columns: iterating gives all columns,
    aggregating the others"""
    __slots__ = ('g', 'o')

    def __init__(self, g, o):
        self.g, self.o = g, o

    def whole(self, I):
        g = Grouped(I, self.o, [])
        g.o, g.keys = self.o, self.g.keys
        return g

    def d_iter(self, I):
        return self.whole(I).d_iter(I)

    def d_len(self, I):
        return len(self.g.keys)

    def d_getattr(self, I, n):
        return self.g.d_getattr(I, n)

    def d_getitem(self, I, key):
        return self.whole(I).d_getitem(I, key)


SER['groupby'] = FRM['groupby'] = grouping


# ----------------------------------------------------------- more of the same
@tm('itertools.permutations')
def _(I, a, k):
    r = arg(a, k, 1, 'r')
    return AGen(iter(list(itertools.permutations(listed(I, a[0]), r))))


@tm('itertools.combinations_with_replacement')
def _(I, a, k):
    return AGen(iter(list(itertools.combinations_with_replacement(
        listed(I, a[0]), arg(a, k, 1, 'r')))))


@tm('itertools.dropwhile')
def _(I, a, k):
    l = listed(I, a[1])
    while l and I.truth(I.call(a[0], [l[0]], {})):
        l.pop(0)
    return AGen(iter(l))


@tm('itertools.filterfalse')
def _(I, a, k):
    return AGen(iter([x for x in listed(I, a[1]) if not I.truth(
        x if a[0] is None else I.call(a[0], [x], {}))]))


@tm('itertools.starmap')
def _(I, a, k):
    return AGen(iter([I.call(a[0], listed(I, x), {})
                      for x in listed(I, a[1])]))


@tm('itertools.compress')
def _(I, a, k):
    return AGen(iter([x for x, b in zip(listed(I, a[0]), listed(I, a[1]))
                      if I.truth(b)]))


def known(f):
    def g(I, a, k):
        v = [plainnum(x) for x in a]
        if k or not all(number(x) for x in v):
            return NotImplemented
        try:
            return f(*v)
        except (ValueError, OverflowError, ZeroDivisionError) as e:
            I.throw(type(e).__name__, str(e))
    return g


for _n in ('fabs', 'pow', 'log', 'exp', 'trunc', 'hypot', 'log2', 'log10',
           'copysign', 'fmod', 'sin', 'cos', 'gcd'):
    TM.setdefault('math.' + _n, known(getattr(math, _n)))


@tm('math.isclose')
def _(I, a, k):
    v = [plainnum(x) for x in a]
    if not all(number(x) for x in v + list(k.values())):
        return NotImplemented
    return math.isclose(*v, **k)


TM['math.fsum'] = lambda I, a, k: total(I, listed(I, a[0]), False)
TM['math.prod'] = lambda I, a, k: product(I, listed(I, a[0]), False)
for _n in ('inf', 'nan', 'pi', 'e'):
    TM[('attr', 'math.' + _n)] = getattr(math, _n)
    M.MODELS.setdefault(('attr', 'math.' + _n), getattr(math, _n))


# ------------------------------------------------------------- merge on index
def merged_on_index(I, l, r, k):
    """two tables joined at the labels of their indices"""
    if set(k) - {'left_index', 'right_index', 'how', 'suffixes'} or \
            not (k.get('left_index') is True and
                 k.get('right_index') is True):
        return NotImplemented
    l, r = [Frame(x.idx, Idx([x.name]), [list(x.vals)]) if isinstance(
        x, Series) else x for x in (l, r)]
    if not isinstance(l, Frame) or not isinstance(r, Frame):
        return NotImplemented
    how = k.get('how', 'inner')
    if how not in ('inner', 'left', 'outer', 'right'):
        return NotImplemented
    a, b = [[key_of(x) for x in f.idx.labels] for f in (l, r)]
    if len(set(a)) < len(a) or len(set(b)) < len(b):
        raise Undecided('merge of duplicate labels')
    if how == 'inner':
        at = [x for x in a if x in b]
    elif how == 'left':
        at = a
    elif how == 'right':
        at = b
    elif a == b:
        at = a
    else:
        raise Undecided('order of an outer merge')
    suf = as_list(I, k.get('suffixes', AList(['_x', '_y'])))
    cols = [key_of(c) for c in l.cols.labels], [key_of(c) for c in
                                                r.cols.labels]
    names, data = [], []
    for f, keys, mine, other, s in ((l, a, cols[0], cols[1], suf[0]),
                                    (r, b, cols[1], cols[0], suf[1])):
        for c, kc, d in zip(f.cols.labels, mine, f.data):
            if kc in other:
                if not isinstance(c, str) or not isinstance(s, str):
                    raise Undecided('suffix of %s' % short(c))
                c = c + s
            names.append(c)
            data.append([d[keys.index(x)] if x in keys else NAN
                         for x in at])
    lab = {key_of(x): x for f in (r, l) for x in f.idx.labels}
    return Frame(l.idx.like([lab[x] for x in at]), Idx(names), data)


@tm('pandas.merge')
def _(I, a, k):
    k = dict(k)
    l = a[0] if a else k.pop('left', None)
    r = a[1] if len(a) > 1 else k.pop('right', None)
    return merged_on_index(I, l, r, k)


@frm('merge')
def _(I, o, a, k):
    k = dict(k)
    r = a[0] if a else k.pop('right', None)
    return merged_on_index(I, o, r, k)


@idxm('set_names')
def _(I, o, a, k):
    l = arg(a, k, 0, 'names')
    lv = arg(a, k, 1, 'level')
    v = as_list(I, l) if not isinstance(l, str) else [l]
    if v is None or set(k) - {'names', 'level', 'inplace'}:
        return NotImplemented
    depth = len(o.labels[0]) if o.labels and isinstance(
        o.labels[0], tuple) else len(as_list(I, o.names) or [None]) \
        if o.names is not None else 1
    if lv is not None:
        if not isinstance(lv, int) or len(v) != 1 or o.names is None:
            return NotImplemented
        n = list(as_list(I, o.names))
        n[lv] = v[0]
        v = n
    if len(v) != depth:
        I.throw('ValueError', 'Length of new names must be %d, got %d' % (
            depth, len(v)))
    r = o
    if not I.truth(k.get('inplace', False)):
        r = o.like(o.labels)
    if o.names is None and depth == 1:
        r.name = v[0]
    else:
        r.names = list(v)
    return None if r is o else r
