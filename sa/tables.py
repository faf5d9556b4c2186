"""Table domain: numpy arrays, pandas Index/Series/DataFrame of a small known
shape whose cells are abstract values (linear forms over named readings, time
stamps, objects).  A cell records which readings it was computed from and how,
so a result can be compared with the readings it ought to be made of.  An
operation that is not modelled gives an opaque value, never a guess."""
import itertools
import math
from fractions import Fraction

from values import (Dom, Opq, Ext, AList, AListSub, ADict, ASet, AObj, AGen,
                    Native, AClass, AFunc, ABound, short, key_of)
from interp import ASlice, NTuple, SCALAR, Undecided, leading
from domains import (Lin, atom, lift, plain, sign, absolute, root)

NAN = float('nan')


def isnan(v):
    if isinstance(v, float):
        return v != v
    if isinstance(v, Ext):
        return v.name.endswith('NaT') or v.name.endswith('.nan')
    return v is None


def bop(I, op, x, y):
    """one cell (numpy semantics for missing values and division)"""
    fx = isinstance(x, float) and x != x
    fy = isinstance(y, float) and y != y
    if fx or fy or x is None or y is None:
        if op in ('&', '|', '^'):
            return False
        return NAN
    if isinstance(x, Ext) and isnan(x) or isinstance(y, Ext) and isnan(y):
        return NAN
    if op == '/' and isinstance(y, (int, float)) and y == 0:
        if isinstance(x, (int, float)):
            return NAN if x == 0 else math.copysign(float('inf'), x)
        return Opq('/', (x, y))
    if isinstance(x, float) and math.isinf(x) or \
            isinstance(y, float) and math.isinf(y):
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            try:
                return I.binop(op, x, y)
            except Exception:
                return NAN
        return Opq(op, (x, y))
    return I.binop(op, x, y)


def cop(I, op, x, y):
    if isnan(x) or isnan(y):
        return op == '!='
    if isinstance(x, float) and math.isinf(x) and isinstance(y, Lin):
        return {'<': x < 0, '<=': x < 0, '>': x > 0, '>=': x > 0,
                '==': False, '!=': True}[op]
    if isinstance(y, float) and math.isinf(y) and isinstance(x, Lin):
        return {'<': y > 0, '<=': y > 0, '>': y < 0, '>=': y < 0,
                '==': False, '!=': True}[op]
    return I.truth(I.compare(op, x, y))


def same(I, x, y):
    if x is y:
        return True
    if isinstance(x, SCALAR) and isinstance(y, SCALAR):
        return x == y
    kx, ky = key_of(x), key_of(y)
    if kx == ky:
        return True
    if isinstance(x, Lin) and isinstance(y, Lin) and x.kind == y.kind:
        return sign(I, x.add(y, -1)) == 0
    if isinstance(x, (tuple, str, int, float)) and \
            isinstance(y, (tuple, str, int, float)):
        return x == y
    if isinstance(x, AObj) or isinstance(y, AObj):
        return I.truth(I.compare('==', x, y))
    return False


def total(I, cells, skipna=True):
    r = 0
    for c in cells:
        if isnan(c):
            if skipna:
                continue
            return NAN
        r = I.binop('+', r, c)
    return r


def mean(I, cells, skipna=True):
    ok = [c for c in cells if not isnan(c)]
    if not ok or (not skipna and len(ok) < len(cells)):
        return NAN
    return I.binop('/', total(I, ok), len(ok))


def extreme(I, cells, op, skipna=True):
    best = None
    for c in cells:
        if isnan(c):
            if skipna:
                continue
            return NAN
        if best is None or I.truth(I.compare(op, c, best)):
            best = c
    return NAN if best is None else best


def sqrt(I, v):
    if isinstance(v, (int, float)):
        return math.sqrt(v) if v >= 0 else NAN
    if isinstance(v, Lin):
        return plain(root(v))
    return Opq('sqrt', (v,))


def absol(I, v):
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Lin):
        r = absolute(v)
        r.kind = v.kind
        return plain(r)
    return Opq('abs', (v,))


def clipv(I, v, lo, hi):
    if isnan(v):
        return v
    if lo is not None and not isnan(lo) and cop(I, '<', v, lo):
        v = lo
    if hi is not None and not isnan(hi) and cop(I, '>', v, hi):
        v = hi
    return v


def pyslice(I, k, n):
    for x in (k.start, k.stop, k.step):
        if x is not None and not isinstance(x, int):
            raise Undecided('slice bound %s' % short(x))
    return range(n)[slice(k.start, k.stop, k.step)]


def arg(a, k, i, name, default=None):
    if len(a) > i:
        return a[i]
    return k.get(name, default)


def as_list(I, v):
    """python list of cells of a 1-D thing, or None"""
    if isinstance(v, Arr):
        if v.ndim == 1:
            return list(v.cells)
        if v.ndim == 2:
            n, m = v.shape
            return [Arr(v.cells[i * m:(i + 1) * m]) for i in range(n)]
        return None
    if isinstance(v, (Series,)):
        return list(v.vals)
    if isinstance(v, Idx):
        return list(v.labels)
    if isinstance(v, Frame):
        return list(v.cols.labels)
    if isinstance(v, (AList,)):
        return list(v.items)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, ASet):
        return list(v.items)
    if isinstance(v, (AGen, ADict)):
        return list(I.iterate(v))
    return None


# ------------------------------------------------------------------- arrays
class Buf:
    """the cells of a frame, read and written row by row"""
    def __init__(self, f):
        self.data, self.sure = list(f.data), f.block

    def __getitem__(self, i):
        return self.data[i % len(self.data)][i // len(self.data)]

    def __setitem__(self, i, v):
        if not self.sure:
            raise Undecided('store into the values of a frame')
        self.data[i % len(self.data)][i // len(self.data)] = v


class Arr(Dom):
    __slots__ = ('buf', 'ix', 'shape', 'dtype', 'attrs')

    def __init__(self, cells, shape=None, dtype=None, ix=None):
        self.ix = ix
        self.buf = cells if isinstance(cells, list) or ix is not None \
            else list(cells)
        self.shape = (len(self.cells),) if shape is None else tuple(shape)
        self.dtype = dtype
        self.attrs = {}

    ndim = property(lambda s: len(s.shape))

    @property
    def cells(self):
        if self.ix is None:
            return self.buf
        b = self.buf
        return [b[i] for i in self.ix]

    def write(self, p, v):
        if self.dtype == 'int':
            if isinstance(v, bool) or (isinstance(v, (float, Fraction)) and
                                       not isnan(v)):
                v = int(v)
        self.buf[p if self.ix is None else self.ix[p]] = v

    def view(self, pos, shape=None):
        """an array which shares memory with this one"""
        return Arr(self.buf, (len(pos),) if shape is None else shape,
                   self.dtype, list(pos) if self.ix is None else
                   [self.ix[i] for i in pos])

    def __repr__(self):
        return 'array(%s)' % ', '.join(map(short, self.cells)) \
            if self.ndim == 1 else 'array%s(%s)' % (
                self.shape, ', '.join(map(short, self.cells)))

    def d_key(self):
        return ('arr', self.shape) + tuple(key_of(c) for c in self.cells)

    def d_deepcopy(self, I, memo):
        return Arr([I.deepcopy(c, memo) for c in self.cells], self.shape,
                   self.dtype)

    def d_len(self, I):
        return self.shape[0] if self.shape else I.throw('TypeError', 'len')

    def d_iter(self, I):
        return as_list(I, self)

    def d_truth(self, I):
        if len(self.cells) == 1:
            return I.truth(self.cells[0])
        if not self.cells:
            return False
        I.throw('ValueError', 'truth value of an array is ambiguous')

    def d_contains(self, I, x):
        return any(cop(I, '==', c, x) for c in self.cells)

    def d_isinstance(self, I, c):
        n = c.name.rsplit('.', 1)[-1] if isinstance(c, Ext) else ''
        return n in ('ndarray', 'object', 'Iterable')

    def broadcast(self, I, other):
        """pairs of cells, resulting shape"""
        o = toarr(I, other)
        if o is None:
            return [(c, other) for c in self.cells], self.shape
        sa, sb = self.shape, o.shape
        n = max(len(sa), len(sb))
        sa2 = (1,) * (n - len(sa)) + sa
        sb2 = (1,) * (n - len(sb)) + sb
        out = []
        for x, y in zip(sa2, sb2):
            if x != y and 1 not in (x, y):
                I.throw('ValueError', 'operands could not be broadcast '
                        'together with shapes %s %s' % (sa, sb))
            out.append(max(x, y) if 0 not in (x, y) else 0)
        pairs = []

        def rec(pre):
            if len(pre) == n:
                pairs.append((self.cells[off(sa2, pre)],
                              o.cells[off(sb2, pre)]))
                return
            for i in range(out[len(pre)]):
                rec(pre + (i,))
        rec(())
        return pairs, tuple(out)

    def d_binop(self, I, op, other, swapped):
        if isinstance(other, (Series, Frame, Idx)):
            return NotImplemented
        if isinstance(other, Opq):
            return NotImplemented
        if op == '@':
            return TM['numpy.dot'](I, [other, self] if swapped
                                   else [self, other], {})
        pairs, sh = self.broadcast(I, other)
        return Arr([bop(I, op, y, x) if swapped else bop(I, op, x, y)
                    for x, y in pairs], sh)

    def d_inplace(self, I, op, other):
        if isinstance(other, Opq):
            return NotImplemented
        r = I.binop(op, self, toarr(I, other) if isinstance(
            other, (Series, Idx, Frame)) else other)
        if not isinstance(r, Arr) or r.shape != self.shape:
            if isinstance(r, Arr):
                I.throw('ValueError', 'non-broadcastable output operand')
            return NotImplemented
        I.event('mutate', obj=self, how=op + '=')
        for i, c in enumerate(list(r.cells)):
            self.write(i, c)
        return self

    def d_compare(self, I, op, other, swapped):
        if op == 'is':
            return self is other
        if isinstance(other, (Series, Frame, Idx)):
            return NotImplemented
        if isinstance(other, Opq):
            return NotImplemented
        if other is None:
            return op == '!='
        pairs, sh = self.broadcast(I, other)
        return Arr([cop(I, op, x, y)
                    for x, y in pairs], sh, 'bool')

    def d_unop(self, I, op):
        if op == '~' and all(isinstance(c, bool) for c in self.cells):
            return Arr([not c for c in self.cells], self.shape, 'bool')
        if op == '-':
            return Arr([c if isnan(c) else I.unop('-', c)
                        for c in self.cells], self.shape)
        return NotImplemented

    # indexing
    def picks(self, I, key, n):
        """list of positions or a single int"""
        if isinstance(key, bool):
            raise Undecided('bool index')
        if isinstance(key, int):
            if not -n <= key < n:
                I.throw('IndexError', 'index %d is out of bounds' % key)
            return key % n
        if isinstance(key, ASlice):
            return list(pyslice(I, key, n))
        l = as_list(I, key)
        if l is None:
            raise Undecided('array index %s' % short(key))
        if l and all(isinstance(x, bool) for x in l):
            if len(l) != n:
                I.throw('IndexError', 'boolean index did not match')
            return [i for i, b in enumerate(l) if b]
        out = []
        for x in l:
            if isinstance(x, bool) or not isinstance(x, int):
                if isinstance(x, float) and x == int(x):
                    I.throw('IndexError', 'arrays used as indices must be '
                            'of integer (or boolean) type')
                raise Undecided('array index %s' % short(x))
            if not -n <= x < n:
                I.throw('IndexError', 'index %d is out of bounds' % x)
            out.append(x % n)
        return out

    def d_getitem(self, I, key):
        if isinstance(key, Opq):
            return NotImplemented
        cells = self.cells
        if isinstance(key, Arr) and key.dtype == 'bool' and key.ndim > 1:
            if key.shape != self.shape:
                I.throw('IndexError', 'boolean index did not match')
            return Arr([c for c, b in zip(cells, key.cells) if b])
        if self.ndim == 1:
            if isinstance(key, tuple):
                if len(key) == 1:
                    key = key[0]
                elif len(key) == 2 and None in key:
                    k2 = [x for x in key if x is not None][0]
                    r = self.d_getitem(I, k2)
                    n = len(r.cells)
                    return r.view(range(n), (n, 1) if key[1] is None
                                  else (1, n))
                else:
                    I.throw('IndexError', 'too many indices for array')
            if isinstance(key, Arr) and key.ndim == 2:
                p = self.picks(I, Arr(key.cells), self.shape[0])
                return Arr([cells[i] for i in p], key.shape)
            p = self.picks(I, key, self.shape[0])
            if isinstance(p, int):
                return cells[p]
            if isinstance(key, ASlice):
                return self.view(p)
            return Arr([cells[i] for i in p], dtype=self.dtype)
        if self.ndim == 2:
            n, m = self.shape
            if isinstance(key, tuple):
                if len(key) != 2 or key[0] is None or key[1] is None:
                    raise Undecided('2-D index %s' % short(key))
                r, c = key
            else:
                r, c = key, ASlice(None, None, None)
            if isinstance(r, Arr) and r.ndim == 2 and r.dtype != 'bool':
                q = self.picks(I, c, m)
                if not isinstance(q, int):
                    raise Undecided('fancy 2-D index')
                p = self.picks(I, Arr(r.cells), n)
                return Arr([cells[i * m + q] for i in p], r.shape,
                           self.dtype)
            p, q = self.picks(I, r, n), self.picks(I, c, m)
            if isinstance(p, int) and isinstance(q, int):
                return cells[p * m + q]
            basic = all(isinstance(x, (int, ASlice)) for x in (r, c))
            mk = self.view if basic else lambda pos, sh=None: Arr(
                [cells[i] for i in pos], sh, self.dtype)
            if isinstance(p, int):
                return mk([p * m + j for j in q])
            if isinstance(q, int):
                return mk([i * m + q for i in p])
            if not isinstance(r, ASlice) and not isinstance(c, ASlice):
                raise Undecided('fancy 2-D index')
            return mk([i * m + j for i in p for j in q],
                      (len(p), len(q)))
        if isinstance(key, int) and not isinstance(key, bool):
            return self.block(I, key)
        raise Undecided('index of %d-D array' % self.ndim)

    def block(self, I, i):
        i = self.picks(I, i, self.shape[0])
        sh = self.shape[1:]
        m = 1
        for s in sh:
            m *= s
        return self.view(range(i * m, (i + 1) * m), sh)

    def d_setitem(self, I, key, value):
        if isinstance(key, Opq):
            raise Undecided('array store at %s' % short(key))
        I.event('mutate', obj=self, how='setitem', key=key, value=value)
        if isinstance(key, Arr) and key.dtype == 'bool' and \
                key.shape == self.shape:
            pos = [i for i, b in enumerate(key.cells) if b]
            sh = (len(pos),)
        elif self.ndim == 1:
            p = self.picks(I, key, self.shape[0])
            if isinstance(p, int):
                if isinstance(value, (Arr, AList, tuple, Series)):
                    I.throw('ValueError', 'setting an array element with a '
                            'sequence.')
                self.write(p, value)
                return
            pos, sh = p, (len(p),)
        elif self.ndim == 2:
            n, m = self.shape
            r, c = key if isinstance(key, tuple) else (
                key, ASlice(None, None, None))
            p, q = self.picks(I, r, n), self.picks(I, c, m)
            if isinstance(p, int) and isinstance(q, int):
                self.write(p * m + q, value)
                return
            pl = [p] if isinstance(p, int) else p
            ql = [q] if isinstance(q, int) else q
            pos = [i * m + j for i in pl for j in ql]
            sh = (len(ql),) if isinstance(p, int) else (len(pl),) \
                if isinstance(q, int) else (len(pl), len(ql))
        elif isinstance(key, int) and not isinstance(key, bool):
            b = self.block(I, key)
            b.d_setitem(I, ASlice(None, None, None) if b.ndim == 1 else
                        tuple([ASlice(None, None, None)] * b.ndim), value)
            return
        else:
            raise Undecided('store in %d-D array' % self.ndim)
        pairs, sh2 = Arr([None] * len(pos), sh).broadcast(I, value)
        if len(pairs) != len(pos):
            I.throw('ValueError', 'could not broadcast input array')
        for i, (_, v) in zip(pos, pairs):
            self.write(i, v)

    def lines(self, axis):
        """cells grouped along an axis (None: all)"""
        if axis is None or self.ndim == 1:
            return None
        n, m = self.shape
        if axis in (0, -2):
            return [[self.cells[i * m + j] for i in range(n)]
                    for j in range(m)]
        return [self.cells[i * m:(i + 1) * m] for i in range(n)]

    def reduce(self, I, f, a, k, i=0):
        axis = arg(a, k, i, 'axis')
        ls = self.lines(axis)
        if ls is None:
            return f(self.cells)
        return Arr([f(l) for l in ls])

    def d_getattr(self, I, name):
        if name == 'shape':
            return tuple(self.shape)
        if name == 'ndim':
            return self.ndim
        if name == 'size':
            return len(self.cells)
        if name == 'T':
            if self.ndim == 1:
                return self
            n, m = self.shape
            return self.view([i * m + j for j in range(m)
                              for i in range(n)], (m, n))
        if name == 'dtype':
            return Ext('numpy.dtype') if self.dtype is None else \
                Opq('sym', ('dtype:' + self.dtype,))
        h = ARR.get(name)
        if h is not None:
            return bound(h, self, 'ARR', name)
        return NotImplemented


def bound(h, self, kind, name):
    """The method, with leading parameters also taken by their names."""
    def call(I, a, k):
        try:
            return h(I, self, a, k)
        except IndexError:
            m = leading(('%s:%s' % (kind, name), 'COMMON:%s' % name), a, k)
            if m is None:
                raise
        return h(I, self, *m)
    return Native(call, name)


def off(shape, ix):
    o = 0
    for s, i in zip(shape, ix):
        o = o * s + (0 if s == 1 else i)
    return o


def toarr(I, v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, Series):
        return Arr(list(v.vals))
    if isinstance(v, Idx):
        return Arr(list(v.labels))
    if isinstance(v, Frame):
        return v.array()
    if isinstance(v, (AList, tuple)):
        items = as_list(I, v)
        subs = [toarr(I, x) for x in items]
        if items and all(s is not None for s in subs):
            shs = {s.shape for s in subs}
            if len(shs) != 1:
                I.throw('ValueError', 'inhomogeneous shape')
            return Arr([c for s in subs for c in s.cells],
                       (len(items),) + subs[0].shape)
        if any(s is not None for s in subs):
            I.throw('ValueError', 'inhomogeneous shape')
        return Arr(items)
    return None


ARR = {}


def arrm(*names):
    def d(f):
        for n in names:
            ARR[n] = f
        return f
    return d


@arrm('sum')
def _(I, o, a, k):
    return o.reduce(I, lambda l: total(I, l, False), a, k)


@arrm('mean')
def _(I, o, a, k):
    return o.reduce(I, lambda l: mean(I, l, False), a, k)


@arrm('min')
def _(I, o, a, k):
    return o.reduce(I, lambda l: extreme(I, l, '<', False), a, k)


@arrm('max')
def _(I, o, a, k):
    return o.reduce(I, lambda l: extreme(I, l, '>', False), a, k)


def argext(op):
    def f(I, o, a, k):
        def one(l):
            best = None
            for i, c in enumerate(l):
                if best is None or cop(I, op, c, l[best]):
                    best = i
            if best is None:
                I.throw('ValueError', 'attempt to get argmin of an empty '
                        'sequence')
            return best
        return o.reduce(I, one, a, k)
    return f


ARR['argmin'] = argext('<')
ARR['argmax'] = argext('>')


@arrm('any')
def _(I, o, a, k):
    return o.reduce(I, lambda l: any(I.truth(c) for c in l), a, k)


@arrm('all')
def _(I, o, a, k):
    return o.reduce(I, lambda l: all(I.truth(c) for c in l), a, k)


@arrm('clip')
def _(I, o, a, k):
    lo = arg(a, k, 0, 'min', k.get('a_min'))
    hi = arg(a, k, 1, 'max', k.get('a_max'))
    if isinstance(lo, (Arr, Opq)) or isinstance(hi, (Arr, Opq)):
        return NotImplemented
    return Arr([clipv(I, c, lo, hi) for c in o.cells], o.shape)


@arrm('astype')
def _(I, o, a, k):
    t = a[0]
    n = t if isinstance(t, str) else getattr(t, 'name', '')
    n = n.rsplit('.', 1)[-1]
    if n.startswith(('int', 'uint')):
        return Arr([int(c) if isinstance(c, (bool, int, float)) and
                    not isnan(c) else c for c in o.cells], o.shape, 'int')
    if n.startswith('float') or n == 'object':
        return Arr([int(c) if isinstance(c, bool) else c for c in o.cells],
                   o.shape, 'float')
    if n.startswith('bool'):
        return Arr([I.truth(c) for c in o.cells], o.shape, 'bool')
    return NotImplemented


@arrm('copy')
def _(I, o, a, k):
    return Arr(list(o.cells), o.shape, o.dtype)


@arrm('tolist')
def _(I, o, a, k):
    def item(x):
        # datetime64[ns] becomes an integer
        if o.dtype == 'M8' and isinstance(x, Lin) and x.kind == 'ts':
            return Opq('int', ('nanoseconds of', x), types={'int'})
        return x
    if o.ndim == 1:
        return AList([item(x) for x in o.cells])
    return AList([AList([item(y) for y in x.cells])
                  for x in as_list(I, o)])


@arrm('flatten')
def _(I, o, a, k):
    return Arr(list(o.cells), dtype=o.dtype)


@arrm('ravel')
def _(I, o, a, k):
    return o.view(range(len(o.cells)))


@arrm('reshape')
def _(I, o, a, k):
    sh = a[0] if len(a) == 1 else tuple(a)
    if isinstance(sh, int):
        sh = (sh,)
    if isinstance(sh, AList):
        sh = tuple(sh.items)
    if not all(isinstance(x, int) for x in sh):
        return NotImplemented
    n = len(o.cells)
    if -1 in sh:
        p = 1
        for x in sh:
            if x != -1:
                p *= x
        if not p or n % p:
            I.throw('ValueError', 'cannot reshape array')
        sh = tuple(n // p if x == -1 else x for x in sh)
    p = 1
    for x in sh:
        p *= x
    if p != n:
        I.throw('ValueError', 'cannot reshape array of size %d into %s' % (
            n, sh))
    return o.view(range(n), sh)


@arrm('cumsum')
def _(I, o, a, k):
    if o.ndim > 1:
        return NotImplemented
    out, t = [], 0
    for c in o.cells:
        t = bop(I, '+', t, c)
        out.append(t)
    return Arr(out)


@arrm('nonzero')
def _(I, o, a, k):
    if o.ndim > 1:
        return NotImplemented
    return (Arr([i for i, c in enumerate(o.cells) if I.truth(c)]),)


@arrm('fill')
def _(I, o, a, k):
    I.event('mutate', obj=o, how='fill')
    for i in range(len(o.cells)):
        o.write(i, a[0])


@arrm('squeeze')
def _(I, o, a, k):
    sh = tuple(x for x in o.shape if x != 1)
    return o.view(range(len(o.cells)), sh or (1,))


@arrm('dot')
def _dot(I, o, a, k):
    x, y = o, toarr(I, a[0])
    if y is None:
        return NotImplemented
    if x.ndim == 1 and y.ndim == 1:
        return total(I, [bop(I, '*', p, q)
                         for p, q in zip(x.cells, y.cells)])
    if x.ndim == 2 and y.ndim == 1:
        return Arr([total(I, [bop(I, '*', p, q) for p, q in zip(
            r, y.cells)]) for r in x.lines(1)])
    return NotImplemented


@arrm('argsort')
def _(I, o, a, k):
    return Arr(order(I, o.cells))


@arrm('round')
def _(I, o, a, k):
    return Arr([round(c) if isinstance(c, (int, float)) and not a else
                c if isnan(c) else Opq('round', (c,) + tuple(a))
                for c in o.cells], o.shape)


def order(I, cells, ascending=True):
    """stable order by insertion, missing last"""
    out = []
    for i, c in enumerate(cells):
        j = len(out)
        if not isnan(c):
            while j > 0 and (isnan(cells[out[j - 1]]) or (
                    cop(I, '<' if ascending else '>', c,
                        cells[out[j - 1]]))):
                j -= 1
        out.insert(j, i)
    return out


# -------------------------------------------------------------------- index
class Idx(Dom):
    __slots__ = ('labels', 'name', 'names', 'tz', 'dt', 'freq')

    def __init__(self, labels, name=None, names=None, tz=None, dt=False):
        self.labels = list(labels)
        self.name = name
        self.names = names
        self.tz = tz
        self.dt = dt
        self.freq = None        # seconds, when the index is regular

    def __repr__(self):
        return 'index(%s)' % ', '.join(map(short, self.labels))

    def d_key(self):
        return ('idx',) + tuple(key_of(c) for c in self.labels)

    def d_len(self, I):
        return len(self.labels)

    def d_iter(self, I):
        return list(self.labels)

    def d_deepcopy(self, I, memo):
        return self.like(self.labels)

    def like(self, labels):
        return Idx(labels, self.name, self.names, self.tz, self.dt)

    def is_dt(self):
        return self.dt or (bool(self.labels) and all(
            isinstance(l, Lin) and l.kind == 'ts' for l in self.labels))

    def find(self, I, label):
        return [i for i, l in enumerate(self.labels) if same(I, l, label)]

    def d_contains(self, I, x):
        if self.labels and isinstance(self.labels[0], tuple) and \
                not isinstance(x, tuple):
            return any(same(I, l[0], x) for l in self.labels)
        return bool(self.find(I, x))

    def d_truth(self, I):
        I.throw('ValueError', 'truth value of an Index is ambiguous')

    def d_isinstance(self, I, c):
        n = c.name.rsplit('.', 1)[-1] if isinstance(c, Ext) else ''
        if n == 'DatetimeIndex':
            return self.is_dt()
        if n == 'MultiIndex':
            return self.multi()
        return n in ('Index', 'object', 'Iterable')

    def multi(self):
        return self.names is not None or (bool(self.labels) and all(
            isinstance(l, tuple) for l in self.labels))

    def d_getitem(self, I, key):
        if isinstance(key, Opq):
            return NotImplemented
        p = Arr(self.labels).picks(I, key, len(self.labels))
        if isinstance(p, int):
            return self.labels[p]
        return self.like([self.labels[i] for i in p])

    def d_compare(self, I, op, other, swapped):
        if op == 'is':
            return self is other
        if isinstance(other, Opq):
            return NotImplemented
        if other is None and op not in ('==', '!='):
            I.throw('TypeError', 'Invalid comparison with None')
        o = as_list(I, other) if not isinstance(other, (str, tuple)) else None
        if o is not None:
            if len(o) != len(self.labels):
                I.throw('ValueError', 'Lengths must match to compare')
            return Arr([cop(I, op, x, y)
                        for x, y in zip(self.labels, o)], dtype='bool')
        return Arr([cop(I, op, x, other)
                    for x in self.labels], dtype='bool')

    def d_binop(self, I, op, other, swapped):
        if op in ('+', '-') and not isinstance(other, Opq):
            o = as_list(I, other)
            ps = zip(self.labels, o) if o is not None else [
                (x, other) for x in self.labels]
            return Idx([bop(I, op, y, x) if swapped else bop(I, op, x, y)
                        for x, y in ps])
        return NotImplemented

    def d_setattr(self, I, name, value):
        if name == 'name':
            self.name = value
            return
        if name == 'names':
            self.names = as_list(I, value)
            return
        return NotImplemented

    def d_getattr(self, I, name):
        if name in ('values', '_values'):
            if name == 'values' and self.dt:      # datetime64: naive UTC
                return Arr([l.with_tz(None) if isinstance(l, Lin) and
                            l.kind == 'ts' else l for l in self.labels],
                           dtype='M8')
            return Arr(list(self.labels), dtype='M8' if self.dt else None)
        if name == 'freq' and self.freq is not None:
            return Lin('td', {}, self.freq)
        if name in ('size',):
            return len(self.labels)
        if name == 'shape':
            return (len(self.labels),)
        if name == 'empty':
            return not self.labels
        if name == 'name':
            return self.name
        if name == 'names':
            return AList(self.names or [self.name])
        if name == 'tz':
            if self.tz is not None:
                return self.tz
            if self.is_dt():
                return self.labels[0].tz if self.labels else None
            I.throw('AttributeError', "'Index' object has no attribute 'tz'")
        if name == 'is_unique':
            return not dups(I, self.labels)
        if name in ('is_monotonic_increasing', 'is_monotonic'):
            return all(cop(I, '<=', x, y) for x, y in zip(
                self.labels, self.labels[1:]))
        if name == 'nlevels':
            return 2 if self.multi() else 1
        if name == 'levels' and self.multi():
            lv = [[], []]
            for l in self.labels:
                for j in range(2):
                    if l[j] not in lv[j]:
                        lv[j].append(l[j])
            return AList([Idx(x) for x in lv])
        h = IDX.get(name)
        if h is not None:
            return bound(h, self, 'IDX', name)
        return NotImplemented


def dups(I, labels):
    return any(same(I, labels[i], labels[j]) for i in range(len(labels))
               for j in range(i))


IDX = {}


def idxm(*names):
    def d(f):
        for n in names:
            IDX[n] = f
        return f
    return d


@idxm('tolist', 'to_list')
def _(I, o, a, k):
    return AList(o.labels)


@idxm('to_numpy')
def _(I, o, a, k):
    return Arr(list(o.labels), dtype='M8' if o.dt and not any(
        getattr(x, 'tz', None) for x in o.labels) else None)


@idxm('copy')
def _(I, o, a, k):
    return o.like(o.labels)


@idxm('duplicated')
def _(I, o, a, k):
    keep = arg(a, k, 0, 'keep', 'first')
    n = len(o.labels)
    out = []
    for i in range(n):
        rng = range(i) if keep == 'first' else range(i + 1, n) \
            if keep == 'last' else [j for j in range(n) if j != i]
        out.append(any(same(I, o.labels[i], o.labels[j]) for j in rng))
    return Arr(out, dtype='bool')


@idxm('unique', 'drop_duplicates')
def _(I, o, a, k):
    out = []
    for l in o.labels:
        if not any(same(I, l, x) for x in out):
            out.append(l)
    return o.like(out)


@idxm('isin')
def _(I, o, a, k):
    l = as_list(I, a[0])
    return Arr([any(same(I, x, y) for y in l) for x in o.labels],
               dtype='bool')


@idxm('map')
def _(I, o, a, k):
    if len(a) != 1 or k or isinstance(a[0], (ADict, Opq, str, Series)):
        return NotImplemented
    out = [I.call(a[0], [l], {}) for l in o.labels]
    if out and all(isinstance(x, (tuple, NTuple)) for x in out):
        return NotImplemented
    return Idx(out)


@idxm('min')
def _(I, o, a, k):
    return extreme(I, o.labels, '<')


@idxm('max')
def _(I, o, a, k):
    return extreme(I, o.labels, '>')


@idxm('get_loc')
def _(I, o, a, k):
    p = o.find(I, a[0])
    if not p:
        I.throw('KeyError', a[0])
    return p[0]


@idxm('get_level_values')
def _(I, o, a, k):
    l = a[0]
    if isinstance(l, str) and o.names and l in o.names:
        l = o.names.index(l)
    if not isinstance(l, int):
        return NotImplemented
    return Idx([x[l] if isinstance(x, tuple) else x for x in o.labels],
               name=o.names[l] if o.names else None)


@idxm('intersection', 'union', 'difference')
def _(I, o, a, k):
    return NotImplemented


def setop(n):
    def f(I, o, a, k):
        l = as_list(I, a[0])
        if l is None:
            return NotImplemented
        if n == 'intersection':
            return o.like([x for x in o.labels
                           if any(same(I, x, y) for y in l)])
        if n == 'difference':
            return o.like([x for x in o.labels
                           if not any(same(I, x, y) for y in l)])
        return o.like(union(I, o.labels, l))
    return f


for _n in ('intersection', 'union', 'difference'):
    IDX[_n] = setop(_n)


def union(I, a, b):
    if len(a) == len(b) and all(same(I, x, y) for x, y in zip(a, b)):
        return list(a)
    out = list(a)
    for y in b:
        if not any(same(I, x, y) for x in out):
            out.append(y)
    try:
        return [out[i] for i in order(I, out)]
    except Undecided:
        return out


def tzmove(I, idx, tz):
    return Idx([l.with_tz(tz) if isinstance(l, Lin) else l
                for l in idx.labels], idx.name, idx.names, tz, idx.dt)


@idxm('tz_convert', 'tz_localize')
def _(I, o, a, k):
    return tzmove(I, o, arg(a, k, 0, 'tz'))


@idxm('sort_values')
def _(I, o, a, k):
    return o.like([o.labels[i] for i in order(I, o.labels)])


@idxm('droplevel')
def _(I, o, a, k):
    l = arg(a, k, 0, 'level', 0)
    if l not in (0, 1):
        return NotImplemented
    return Idx([x[1 - l] for x in o.labels])


@idxm('append')
def _(I, o, a, k):
    return o.like(o.labels + as_list(I, a[0]))


# ------------------------------------------------------------------- series
class Series(Dom):
    __slots__ = ('idx', 'vals', 'name', 'attrs', 'kind', 'back')

    def __init__(self, vals, idx=None, name=None):
        self.back = None
        self.vals = vals if isinstance(vals, list) else list(vals)
        self.idx = idx if idx is not None else Idx(range(len(self.vals)))
        self.name = name
        self.attrs = {}

    def __repr__(self):
        return 'series(%s)' % ', '.join('%s: %s' % (short(i), short(v))
                                        for i, v in zip(self.idx.labels,
                                                        self.vals))

    def d_key(self):
        return ('series', self.idx.d_key()) + tuple(key_of(v)
                                                    for v in self.vals)

    def d_deepcopy(self, I, memo):
        r = Series([I.deepcopy(v, memo) for v in self.vals],
                   self.idx.like(self.idx.labels), self.name)
        return r

    def like(self, vals):
        return Series(vals, self.idx, self.name)

    def d_inplace(self, I, op, other):
        if isinstance(other, Opq):
            return NotImplemented
        r = I.binop(op, self, other)
        if not isinstance(r, Series):
            return NotImplemented
        I.event('mutate', obj=self, how=op + '=')
        if len(r.vals) == len(self.vals) and all(
                same(I, x, y) for x, y in zip(r.idx.labels,
                                              self.idx.labels)):
            self.vals[:] = r.vals       # the frame it came from changes too
        else:
            self.idx, self.vals = r.idx, list(r.vals)
        return self

    def take(self, pos):
        return Series([self.vals[i] for i in pos],
                      self.idx.like([self.idx.labels[i] for i in pos]),
                      self.name)

    def d_len(self, I):
        return len(self.vals)

    def d_iter(self, I):
        return list(self.vals)

    def d_truth(self, I):
        I.throw('ValueError', 'The truth value of a Series is ambiguous')

    def d_contains(self, I, x):
        return self.idx.d_contains(I, x)

    def d_isinstance(self, I, c):
        n = c.name.rsplit('.', 1)[-1] if isinstance(c, Ext) else ''
        return n in ('Series', 'object', 'Iterable', 'NDFrame')

    def aligned(self, I, other):
        """(index, pairs)"""
        if isinstance(other, Series):
            a, b = self.idx.labels, other.idx.labels
            if len(a) == len(b) and all(same(I, x, y)
                                        for x, y in zip(a, b)):
                return self.idx, list(zip(self.vals, other.vals))
            u = union(I, a, b)
            pairs = []
            for l in u:
                p, q = self.idx.find(I, l), other.idx.find(I, l)
                if len(p) > 1 or len(q) > 1:
                    raise Undecided('duplicate labels')
                pairs.append((self.vals[p[0]] if p else NAN,
                              other.vals[q[0]] if q else NAN))
            return self.idx.like(u), pairs
        o = as_list(I, other) if not isinstance(other, str) else None
        if o is not None:
            if len(o) != len(self.vals):
                I.throw('ValueError', 'operands could not be broadcast')
            return self.idx, list(zip(self.vals, o))
        return self.idx, [(v, other) for v in self.vals]

    def d_binop(self, I, op, other, swapped):
        if isinstance(other, (Frame, Opq)):
            return NotImplemented
        ix, ps = self.aligned(I, other)
        return Series([bop(I, op, y, x) if swapped else bop(I, op, x, y)
                       for x, y in ps], ix, self.name)

    def d_compare(self, I, op, other, swapped):
        if op == 'is':
            return self is other
        if isinstance(other, (Frame, Opq)):
            return NotImplemented
        if other is None:
            return self.like([op == '!='] * len(self.vals))
        if isinstance(other, Series) and not (
                len(other.vals) == len(self.vals) and all(
                    same(I, x, y) for x, y in zip(self.idx.labels,
                                                  other.idx.labels))):
            I.throw('ValueError', 'Can only compare identically-labeled '
                    'Series objects')
        ix, ps = self.aligned(I, other)
        return Series([cop(I, op, x, y)
                       for x, y in ps], ix, self.name)

    def d_unop(self, I, op):
        if op == '~' and all(isinstance(c, bool) for c in self.vals):
            return self.like([not c for c in self.vals])
        if op == '-':
            return self.like([c if isnan(c) else I.unop('-', c)
                              for c in self.vals])
        return NotImplemented

    def where(self, I, key):
        """positions selected by a label-based key; int for one label"""
        n = len(self.vals)
        return where(I, self.idx, key, n)

    def d_getitem(self, I, key):
        if isinstance(key, Opq):
            return NotImplemented
        if isinstance(key, int) and not isinstance(key, bool) and not any(
                isinstance(l, int) for l in self.idx.labels):
            p = Arr(self.vals).picks(I, key, len(self.vals))
            return self.vals[p]
        if isinstance(key, ASlice) and all(
                x is None or isinstance(x, int)
                for x in (key.start, key.stop)):
            return self.take(list(pyslice(I, key, len(self.vals))))
        p = self.where(I, key)
        if isinstance(p, int):
            return self.vals[p]
        return self.take(p)

    def d_setitem(self, I, key, value):
        if isinstance(key, Opq):
            raise Undecided('series store')
        I.event('mutate', obj=self, how='setitem', key=key, value=value)
        try_new = not isinstance(key, (ASlice, Arr, Series, AList))
        if try_new and not self.idx.find(I, key):
            self.idx = self.idx.like(self.idx.labels + [key])
            self.vals.append(value)
            return
        p = self.where(I, key)
        put(I, self.vals, p, value)
        if self.back is not None:
            o, i, q = self.back
            if len(q) != len(self.vals) or len(o.data) <= max(q):
                raise Undecided('store in a row of a changed table')
            for j, v in zip(q, self.vals):
                o.data[j][i] = v

    def d_setattr(self, I, name, value):
        if name == 'index':
            l = as_list(I, value)
            if l is None:
                raise Undecided('index := %s' % short(value))
            if len(l) != len(self.vals):
                I.throw('ValueError', 'Length mismatch')
            self.idx = value if isinstance(value, Idx) else Idx(l)
            return
        if name == 'name':
            self.name = value
            return
        I.event('setattr', obj=self, name=name, value=value)
        self.attrs[name] = value

    def d_getattr(self, I, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == 'index':
            return self.idx
        if name == 'values':
            return Arr(self.vals)
        if name == 'name':
            return self.name
        if name == 'shape':
            return (len(self.vals),)
        if name == 'size':
            return len(self.vals)
        if name == 'ndim':
            return 1
        if name == 'empty':
            return not self.vals
        if name in ('loc', 'at'):
            return Loc(self, False)
        if name in ('iloc', 'iat'):
            return Loc(self, True)
        h = SER.get(name) or COMMON.get(name)
        if h is not None:
            return bound(h, self, 'SER', name)
        if self.idx.d_contains(I, name):
            return self.d_getitem(I, name)
        if name in KNOWN_ATTRS:
            return NotImplemented
        I.throw('AttributeError', "'Series' object has no attribute '%s'"
                % name)


def put(I, vals, p, value):
    if isinstance(p, int):
        vals[p] = value
        return
    l = as_list(I, value) if not isinstance(value, (str, tuple)) else None
    if l is not None:
        if len(l) != len(p):
            I.throw('ValueError', 'cannot set using a list-like indexer with '
                    'a different length than the value')
        for i, v in zip(p, l):
            vals[i] = v
    else:
        for i in p:
            vals[i] = value


def where(I, idx, key, n):
    if isinstance(key, (Arr, Series, AList)):
        l = as_list(I, key)
        if isinstance(key, Series) and l and all(
                isinstance(x, bool) for x in l):
            # align on the index
            out = []
            for i, lab in enumerate(idx.labels):
                q = key.idx.find(I, lab)
                if not q:
                    I.throw('IndexingError', 'Unalignable boolean Series')
                if l[q[0] if len(q) == 1 else i]:
                    out.append(i)
            return out
        if l and all(isinstance(x, bool) for x in l):
            if len(l) != n:
                I.throw('IndexError', 'Boolean index has wrong length')
            return [i for i, b in enumerate(l) if b]
        out = []
        for x in l:
            p = idx.find(I, x)
            if not p:
                I.throw('KeyError', x)
            out += p
        return out
    if isinstance(key, Idx):
        return where(I, idx, AList(key.labels), n)
    if isinstance(key, ASlice):
        if key.step is not None:
            raise Undecided('label slice with step')
        if key.start is None and key.stop is None:
            return list(range(n))
        if idx.is_dt():
            out = []
            for i, l in enumerate(idx.labels):
                if key.start is not None and not cop(I, '>=', l, key.start):
                    continue
                if key.stop is not None and not cop(I, '<=', l, key.stop):
                    continue
                out.append(i)
            return out
        a = idx.find(I, key.start) if key.start is not None else [0]
        b = idx.find(I, key.stop) if key.stop is not None else [n - 1]
        if not a or not b:
            raise Undecided('label slice')
        return list(range(a[0], b[-1] + 1))
    if isinstance(key, bool) and n:
        raise Undecided('bool label')
    p = idx.find(I, key)
    if not p:
        I.throw('KeyError', key)
    return p[0] if len(p) == 1 else p


class Loc(Dom):
    __slots__ = ('o', 'i')

    def __init__(self, o, i):
        self.o = o
        self.i = i

    def rows(self, I, key):
        n = len(self.o.idx.labels)
        if self.i:
            return Arr([0] * n).picks(I, key.vals and Arr(key.vals)
                                      if isinstance(key, Series) else key, n)
        return where(I, self.o.idx, key, n)

    def colpos(self, I, key):
        m = len(self.o.cols.labels)
        if self.i:
            return Arr([0] * m).picks(I, key, m)
        if isinstance(key, tuple) and not any(
                isinstance(l, tuple) for l in self.o.cols.labels):
            key = AList(list(key))      # a tuple of flat labels: list-like
        return where(I, self.o.cols, key, m)

    def d_getitem(self, I, key):
        if isinstance(key, Opq):
            return NotImplemented
        o = self.o
        if isinstance(o, Series):
            if isinstance(key, tuple) and len(key) == 1:
                key = key[0]
            p = self.rows(I, key)
            return o.vals[p] if isinstance(p, int) else o.take(p)
        r, c = split_key(o, key, self.i)
        if any(isinstance(x, Opq) for x in (r, c)):
            return NotImplemented
        p = self.rows(I, r)
        q = None if c is None else self.colpos(I, c)
        if isinstance(p, int):
            if isinstance(q, int):
                return o.data[q][p]
            q = range(len(o.data)) if q is None else q
            s = Series([o.data[j][p] for j in q],
                       o.cols.like([o.cols.labels[j] for j in q]),
                       name=o.idx.labels[p])
            if len({type(c) for d in o.data for c in d}) == 1:
                s.back = (o, p, list(q))    # one block: a view of the row
            return s
        if isinstance(q, int):
            if p == list(range(len(o.idx.labels))):
                return o.column(q)          # a view
            return o.column(q).take(p)
        return o.pick(p, q)

    def d_setitem(self, I, key, value):
        o = self.o
        I.event('mutate', obj=o, how='setitem', key=key, value=value)
        if isinstance(key, Opq):
            raise Undecided('store at %s' % short(key))
        if isinstance(o, Series):
            if not self.i and not isinstance(key, (ASlice, Arr, Series,
                                                   AList)) and \
                    not o.idx.find(I, key):
                o.d_setitem(I, key, value)
                return
            put(I, o.vals, self.rows(I, key), value)
            return
        r, c = split_key(o, key, self.i)
        if not self.i and not isinstance(r, (ASlice, Arr, Series, AList,
                                             Idx)) and not o.idx.find(I, r):
            o.idx = o.idx.like(o.idx.labels + [r])
            for col in o.data:
                col.append(NAN)
        if isinstance(c, tuple) and not self.i and not any(
                isinstance(l, tuple) for l in o.cols.labels):
            c = AList(list(c))
        if c is not None and not self.i and not isinstance(
                c, (ASlice, Arr, Series, AList, Idx)) and \
                not o.cols.find(I, c):
            o.cols = o.cols.like(o.cols.labels + [c])
            o.data.append([NAN] * len(o.idx.labels))
        p = self.rows(I, r)
        q = None if c is None else self.colpos(I, c)
        qs = list(range(len(o.data))) if q is None else [q] \
            if isinstance(q, int) else list(q)
        ps = [p] if isinstance(p, int) else list(p)
        if isinstance(value, Frame):
            raise Undecided('frame store')
        l = as_list(I, value) if not isinstance(value, (str, tuple)) else None
        if isinstance(value, Arr) and value.ndim == 2:
            if value.shape != (len(ps), len(qs)):
                I.throw('ValueError', 'shape mismatch')
            for a, i in enumerate(ps):
                for b, j in enumerate(qs):
                    o.data[j][i] = value.cells[a * len(qs) + b]
            return
        if isinstance(value, Series) and len(qs) == 1 and not isinstance(
                p, int):
            # aligned on the index
            for i in ps:
                f = value.idx.find(I, o.idx.labels[i])
                if len(f) > 1:
                    raise Undecided('duplicate labels')
                o.data[qs[0]][i] = value.vals[f[0]] if f else NAN
            return
        if l is None:
            for j in qs:
                for i in ps:
                    o.data[j][i] = value
        elif isinstance(p, int):
            if len(l) != len(qs):
                I.throw('ValueError', 'Must have equal len keys and value')
            for j, v in zip(qs, l):
                o.data[j][p] = v
        else:
            if len(l) != len(ps):
                I.throw('ValueError', 'cannot set with a different length')
            for j in qs:
                for i, v in zip(ps, l):
                    o.data[j][i] = v


def split_key(o, key, ipos):
    if isinstance(key, tuple) and len(key) == 2:
        if ipos or not any(isinstance(l, tuple) for l in o.idx.labels):
            return key
    return key, None


# -------------------------------------------------------------------- frame
class Frame(Dom):
    __slots__ = ('idx', 'cols', 'data', 'attrs', 'block')

    def __init__(self, idx=None, cols=None, data=None):
        self.idx = idx if idx is not None else Idx([])
        self.cols = cols if cols is not None else Idx([])
        self.data = data if data is not None else [
            [NAN] * len(self.idx.labels) for _ in self.cols.labels]
        self.attrs = {}
        self.block = False      # one block: `values` is a view

    def __repr__(self):
        return 'frame(%s | %s)' % (
            ', '.join(map(short, self.idx.labels)),
            '; '.join('%s=[%s]' % (short(c), ', '.join(map(short, d)))
                      for c, d in zip(self.cols.labels, self.data)))

    def d_key(self):
        return ('frame', self.idx.d_key(), self.cols.d_key()) + tuple(
            tuple(key_of(v) for v in d) for d in self.data)

    def d_deepcopy(self, I, memo):
        return Frame(self.idx.like(self.idx.labels),
                     self.cols.like(self.cols.labels),
                     [[I.deepcopy(v, memo) for v in d] for d in self.data])

    def copy(self):
        return Frame(self.idx, self.cols, [list(d) for d in self.data])

    def array(self):
        n, m = len(self.idx.labels), len(self.data)
        return Arr(Buf(self), (n, m), None, range(n * m))

    def d_inplace(self, I, op, other):
        if isinstance(other, Opq):
            return NotImplemented
        r = I.binop(op, self, other)
        if not isinstance(r, Frame):
            return NotImplemented
        I.event('mutate', obj=self, how=op + '=')
        self.idx, self.cols, self.data = r.idx, r.cols, r.data
        return self

    def column(self, j):
        return Series(self.data[j], self.idx, self.cols.labels[j])

    def pick(self, p=None, q=None):
        p = range(len(self.idx.labels)) if p is None else p
        q = range(len(self.data)) if q is None else q
        return Frame(self.idx.like([self.idx.labels[i] for i in p]),
                     self.cols.like([self.cols.labels[j] for j in q]),
                     [[self.data[j][i] for i in p] for j in q])

    def row(self, i):
        return Series([d[i] for d in self.data], self.cols,
                      name=self.idx.labels[i])

    def d_len(self, I):
        return len(self.idx.labels)

    def d_iter(self, I):
        return list(self.cols.labels)

    def d_truth(self, I):
        I.throw('ValueError', 'The truth value of a DataFrame is ambiguous')

    def d_contains(self, I, x):
        return self.cols.d_contains(I, x)

    def d_isinstance(self, I, c):
        n = c.name.rsplit('.', 1)[-1] if isinstance(c, Ext) else ''
        return n in ('DataFrame', 'object', 'Iterable', 'NDFrame')

    def d_getitem(self, I, key):
        if isinstance(key, Opq):
            return NotImplemented
        if isinstance(key, ASlice):
            if all(x is None or isinstance(x, int)
                   for x in (key.start, key.stop)):
                return self.pick(list(pyslice(I, key,
                                              len(self.idx.labels))))
            return self.pick(where(I, self.idx, key, len(self.idx.labels)))
        if isinstance(key, Frame):
            if key_of(key.idx) != key_of(self.idx) or \
                    key_of(key.cols) != key_of(self.cols) or not all(
                        isinstance(c, bool) for d in key.data for c in d):
                return NotImplemented
            r = self.pick(None, list(range(len(self.data))))
            r.data = [[c if m else NAN for c, m in zip(d, e)]
                      for d, e in zip(self.data, key.data)]
            return r
        if isinstance(key, (Arr, Series, AList, Idx)):
            l = as_list(I, key)
            if l and all(isinstance(x, bool) for x in l):
                return self.pick(where(I, self.idx, key,
                                       len(self.idx.labels)))
            if not l and isinstance(key, (Arr, Series)) and \
                    not self.idx.labels:
                return self.pick([])        # a mask of no rows
            q = []
            for x in l:
                f = self.cols.find(I, x)
                if not f and self.cols.multi():
                    f = [j for j, c in enumerate(self.cols.labels)
                         if same(I, c[0], x)]
                if not f:
                    I.throw('KeyError', x)
                q += f
            return self.pick(None, q)
        f = self.cols.find(I, key)
        if not f and self.cols.multi() and not isinstance(key, tuple):
            f = [j for j, c in enumerate(self.cols.labels)
                 if isinstance(c, tuple) and same(I, c[0], key)]
            if f:
                r = self.pick(None, f)
                r.cols = Idx([self.cols.labels[j][1] for j in f])
                return r
        if not f:
            I.throw('KeyError', key)
        if len(f) == 1:
            return self.column(f[0])
        return self.pick(None, f)

    def d_setitem(self, I, key, value):
        I.event('mutate', obj=self, how='setitem', key=key, value=value)
        if isinstance(key, Frame):
            r = COMMON['mask'](I, self, [key, value], {})
            if isinstance(r, Frame):
                for d, e in zip(self.data, r.data):
                    d[:] = e
                return
        if isinstance(key, (Opq, Frame)):
            raise Undecided('frame store at %s' % short(key))
        if isinstance(key, (Arr, Series)) or isinstance(key, AList) and \
                key.items and all(isinstance(x, bool) for x in key.items):
            Loc(self, False).d_setitem(I, key, value)
            return
        if isinstance(key, AList):
            raise Undecided('multi-column store')
        n = len(self.idx.labels)
        if isinstance(value, Series):
            if not n and value.vals:
                self.idx = value.idx
                n = len(self.idx.labels)
                self.data = [[NAN] * n for _ in self.data]
                col = list(value.vals)
            else:
                col = []
                if len(value.vals) == n and all(
                        same(I, x, y) for x, y in zip(
                            self.idx.labels, value.idx.labels)):
                    col = list(value.vals)
                else:
                    for l in self.idx.labels:
                        f = value.idx.find(I, l)
                        if len(f) > 1:
                            raise Undecided('duplicate labels')
                        col.append(value.vals[f[0]] if f else NAN)
        elif isinstance(value, Opq):
            col = [Opq('item', (value, i)) for i in range(n)]
        else:
            l = as_list(I, value) if not isinstance(value, (str, tuple)) \
                else None
            if l is None:
                col = [value] * n
            else:
                if not n and l:
                    self.idx = Idx(range(len(l)))
                    n = len(l)
                    self.data = [[NAN] * n for _ in self.data]
                if len(l) != n:
                    I.throw('ValueError', 'Length of values (%d) does not '
                            'match length of index (%d)' % (len(l), n))
                col = l
        f = self.cols.find(I, key)
        if f:
            for j in f:
                self.data[j] = list(col)
        else:
            self.cols = self.cols.like(self.cols.labels + [key])
            self.data.append(col)

    def d_delitem(self, I, key):
        f = self.cols.find(I, key)
        if not f:
            I.throw('KeyError', key)
        I.event('mutate', obj=self, how='delitem', key=key)
        keep = [j for j in range(len(self.data)) if j not in f]
        self.data = [self.data[j] for j in keep]
        self.cols = self.cols.like([self.cols.labels[j] for j in keep])

    def d_binop(self, I, op, other, swapped):
        if isinstance(other, Opq):
            return NotImplemented
        if isinstance(other, Frame):
            ix = union(I, self.idx.labels, other.idx.labels)
            cs = union(I, self.cols.labels, other.cols.labels)
            data = []
            for c in cs:
                p, q = self.cols.find(I, c), other.cols.find(I, c)
                if len(p) > 1 or len(q) > 1:
                    raise Undecided('duplicate columns')
                if p and q:
                    r = self.column(p[0]).d_binop(
                        I, op, other.column(q[0]), swapped)
                    data.append(list(r.vals))
                else:
                    data.append([NAN] * len(ix))
            return Frame(self.idx.like(ix), self.cols.like(cs), data)
        if isinstance(other, Series):
            data = []
            for c, d in zip(self.cols.labels, self.data):
                f = other.idx.find(I, c)
                y = other.vals[f[0]] if f else NAN
                data.append([bop(I, op, y, x) if swapped else
                             bop(I, op, x, y) for x in d])
            if any(not self.cols.find(I, l) for l in other.idx.labels):
                raise Undecided('frame/series alignment')
            return Frame(self.idx, self.cols, data)
        if isinstance(other, (Arr, AList)):
            a = self.array().d_binop(I, op, other, swapped)
            return Frame(self.idx, self.cols, a.lines(0)) \
                if a.shape == (len(self.idx.labels), len(self.data)) else \
                I.throw('ValueError', 'shape mismatch')
        return Frame(self.idx, self.cols, [
            [bop(I, op, other, x) if swapped else bop(I, op, x, other)
             for x in d] for d in self.data])

    def d_compare(self, I, op, other, swapped):
        if op == 'is':
            return self is other
        if isinstance(other, (Opq, Frame, Series)):
            return NotImplemented
        if other is None:
            return Frame(self.idx, self.cols, [[op == '!='] * len(d)
                                               for d in self.data])
        return Frame(self.idx, self.cols, [
            [cop(I, op, x, other)
             for x in d] for d in self.data])

    def d_unop(self, I, op):
        if op == '-':
            return Frame(self.idx, self.cols, [
                [c if isnan(c) else I.unop('-', c) for c in d]
                for d in self.data])
        if op == '~':
            return Frame(self.idx, self.cols, [[not c for c in d]
                                               for d in self.data])
        return NotImplemented

    def d_setattr(self, I, name, value):
        if name in ('index', 'columns'):
            l = as_list(I, value)
            if l is None:
                raise Undecided('%s := %s' % (name, short(value)))
            n = len(self.idx.labels) if name == 'index' else len(self.data)
            if len(l) != n:
                I.throw('ValueError', 'Length mismatch: Expected axis has %d '
                        'elements, new values have %d' % (n, len(l)))
            v = value if isinstance(value, Idx) else Idx(l)
            I.event('mutate', obj=self, how=name, value=v)
            if name == 'index':
                self.idx = v
            else:
                self.cols = v
            return
        I.event('setattr', obj=self, name=name, value=value)
        self.attrs[name] = value

    def d_getattr(self, I, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == 'index':
            return self.idx
        if name == 'columns':
            return self.cols
        if name == 'values':
            return self.array()
        if name == 'shape':
            return (len(self.idx.labels), len(self.data))
        if name == 'size':
            return len(self.idx.labels) * len(self.data)
        if name == 'ndim':
            return 2
        if name == 'empty':
            return not self.idx.labels or not self.data
        if name in ('loc', 'at'):
            return Loc(self, False)
        if name in ('iloc', 'iat'):
            return Loc(self, True)
        if name == 'T':
            return Frame(self.cols, self.idx, [
                [d[i] for d in self.data]
                for i in range(len(self.idx.labels))])
        h = FRM.get(name) or COMMON.get(name)
        if h is not None:
            return bound(h, self, 'FRM', name)
        f = self.cols.find(I, name) or any(
            isinstance(l, tuple) and l and l[0] == name
            for l in self.cols.labels)
        if f:
            return self.d_getitem(I, name)
        if name in KNOWN_ATTRS:
            return NotImplemented
        I.throw('AttributeError', "'DataFrame' object has no attribute '%s'"
                % name)


KNOWN_ATTRS = set('''
abs add agg aggregate align all any append apply applymap asfreq asof assign
astype at_time axes backfill between_time bfill bool boxplot clip columns
combine combine_first compare convert_dtypes copy corr corrwith count cov
cummax cummin cumprod cumsum describe diff div divide dot drop
drop_duplicates droplevel dropna dtypes duplicated eq equals eval ewm
expanding explode ffill fillna filter first first_valid_index flags floordiv
from_dict from_records ge get groupby gt head hist idxmax idxmin
infer_objects info insert interpolate isin isna isnull items iterrows
itertuples join keys kurt kurtosis last last_valid_index le lt mask max mean
median melt memory_usage merge min mod mode mul multiply ne nlargest notna
notnull nsmallest nunique pad pct_change pipe pivot pivot_table plot pop pow
prod product quantile query radd rank rdiv reindex reindex_like rename
rename_axis reorder_levels replace resample reset_index rfloordiv rmod rmul
rolling round rpow rsub rtruediv sample select_dtypes sem set_axis set_flags
set_index shift size skew sort_index sort_values squeeze stack std style sub
subtract sum swapaxes swaplevel tail take to_clipboard to_csv to_dict
to_excel to_feather to_frame to_gbq to_hdf to_html to_json to_latex to_list
tolist to_markdown to_numpy to_orc to_parquet to_period to_pickle to_records
to_sql to_stata to_string to_timestamp to_xarray to_xml transform transpose
truediv truncate tz_convert tz_localize unstack update value_counts values
var where xs array argmax argmin argsort autocorr between cat dt dtype
factorize hasnans is_monotonic_decreasing is_monotonic_increasing is_unique
item map name nbytes ravel repeat searchsorted str swaplevel unique view attrs
sparse _get_numeric_data'''.split())

SER, FRM, COMMON = {}, {}, {}


def ser(*names):
    def d(f):
        for n in names:
            SER[n] = f
        return f
    return d


def frm(*names):
    def d(f):
        for n in names:
            FRM[n] = f
        return f
    return d


def com(*names):
    def d(f):
        for n in names:
            COMMON[n] = f
        return f
    return d


def reducer(name, f):
    def s(I, o, a, k):
        return f(I, o.vals, k.get('skipna', True))

    def d(I, o, a, k):
        ax = arg(a, k, 0, 'axis', 0)
        sk = k.get('skipna', True)
        if ax in (0, 'index', None):
            return Series([f(I, c, sk) for c in o.data], o.cols)
        return Series([f(I, [c[i] for c in o.data], sk)
                       for i in range(len(o.idx.labels))], o.idx)
    SER[name] = s
    FRM[name] = d


reducer('sum', lambda I, c, s: total(I, c, s))
reducer('mean', lambda I, c, s: mean(I, c, s))
reducer('min', lambda I, c, s: extreme(I, c, '<', s))
reducer('max', lambda I, c, s: extreme(I, c, '>', s))
reducer('count', lambda I, c, s: len([x for x in c if not isnan(x)]))
reducer('any', lambda I, c, s: any(I.truth(x) for x in c if not isnan(x)))
reducer('all', lambda I, c, s: all(I.truth(x) for x in c if not isnan(x)))


def mapped(o, f):
    if isinstance(o, Series):
        return o.like([f(v) for v in o.vals])
    return Frame(o.idx, o.cols, [[f(v) for v in d] for d in o.data])


def inplace(I, o, k, new):
    """result of a method with an inplace flag"""
    if k.get('inplace') is True:
        I.event('mutate', obj=o, how='inplace')
        if isinstance(o, Series):
            if new.idx is o.idx:
                o.vals[:] = new.vals    # the values a frame shares, too
            else:
                o.vals, o.idx = new.vals, new.idx
        else:
            o.data, o.idx, o.cols = new.data, new.idx, new.cols
        return None
    return new


@com('copy')
def _(I, o, a, k):
    return o.copy() if isinstance(o, Frame) else Series(
        list(o.vals), o.idx, o.name)


@com('isnull', 'isna')
def _(I, o, a, k):
    return mapped(o, isnan)


@com('notnull', 'notna')
def _(I, o, a, k):
    return mapped(o, lambda v: not isnan(v))


@com('abs')
def _(I, o, a, k):
    return mapped(o, lambda v: v if isnan(v) else absol(I, v))


@com('fillna')
def _(I, o, a, k):
    v = arg(a, k, 0, 'value')
    if v is None or isinstance(v, (Dom, ADict)) or k.get('method'):
        return NotImplemented
    return inplace(I, o, k, mapped(o, lambda c: v if isnan(c) else c))


@com('clip')
def _(I, o, a, k):
    lo, hi = arg(a, k, 0, 'lower'), arg(a, k, 1, 'upper')
    if any(isinstance(x, (Opq, Arr, Series, AList)) for x in (lo, hi)):
        return NotImplemented
    return inplace(I, o, k, mapped(o, lambda c: clipv(I, c, lo, hi)))


@com('astype')
def _(I, o, a, k):
    t = a[0] if a else k.get('dtype')
    n = t if isinstance(t, str) else getattr(t, 'name', '')
    n = n.rsplit('.', 1)[-1]
    if n.startswith(('float', 'object')):
        return mapped(o, lambda c: c)
    if n.startswith('bool'):
        return mapped(o, lambda c: True if isnan(c) else I.truth(c))
    if n.startswith(('int', 'uint')):
        return mapped(o, lambda c: int(c) if isinstance(
            c, (bool, int, float)) and not isnan(c) else c)
    return NotImplemented


def pos_take(o, p):
    return o.take(p) if isinstance(o, Series) else o.pick(p)


def attrs_lost(new):
    return new


@com('dropna')
def _(I, o, a, k):
    if isinstance(o, Series):
        p = [i for i, v in enumerate(o.vals) if not isnan(v)]
        return inplace(I, o, k, o.take(p))
    ax = arg(a, k, 0, 'axis', 0)
    how = k.get('how', 'any')
    sub = k.get('subset')
    if ax in (1, 'columns'):
        q = [j for j, d in enumerate(o.data) if not (
            any if how == 'any' else all)(isnan(v) for v in d)]
        return inplace(I, o, k, o.pick(None, q))
    data = o.data
    if sub is not None:
        l = as_list(I, sub)
        data = [o.data[f] for x in (l or []) for f in o.cols.find(I, x)]
    p = [i for i in range(len(o.idx.labels)) if not (
        (any if how == 'any' else all)([isnan(d[i]) for d in data]) and data)]
    return inplace(I, o, k, o.pick(p))


@com('sort_index')
def _(I, o, a, k):
    ax = arg(a, k, 0, 'axis', 0)
    if ax in (1, 'columns'):
        q = order(I, o.cols.labels)
        return inplace(I, o, k, o.pick(None, q))
    asc = k.get('ascending', True)
    return inplace(I, o, k, pos_take(o, order(I, o.idx.labels, asc)))


@com('head')
def _(I, o, a, k):
    n = arg(a, k, 0, 'n', 5)
    return pos_take(o, list(range(len(o.idx.labels)))[:n])


@com('tail')
def _(I, o, a, k):
    n = arg(a, k, 0, 'n', 5)
    l = list(range(len(o.idx.labels)))
    return pos_take(o, l[-n:] if n else [])


@com('tz_convert', 'tz_localize')
def _(I, o, a, k):
    r = o.copy() if isinstance(o, Frame) else Series(list(o.vals), o.idx,
                                                     o.name)
    r.idx = tzmove(I, o.idx, arg(a, k, 0, 'tz'))
    return r


@com('to_numpy')
def _(I, o, a, k):
    return toarr(I, o)


@com('keys')
def _(I, o, a, k):
    return o.idx if isinstance(o, Series) else o.cols


@com('truncate')
def _(I, o, a, k):
    b, e = arg(a, k, 0, 'before'), arg(a, k, 1, 'after')
    return pos_take(o, where(I, o.idx, ASlice(b, e, None),
                             len(o.idx.labels)))


@com('duplicated')
def _(I, o, a, k):
    if isinstance(o, Series):
        return Series(IDX['duplicated'](I, Idx(o.vals), a, k).cells, o.idx)
    return NotImplemented


def arith(n, op, rev=False):
    def f(I, o, a, k):
        other = a[0] if a else k.get('other')
        fill = k.get('fill_value')
        ax = arg(a, k, 1, 'axis', None)
        if isinstance(o, Frame) and isinstance(other, Series) and \
                ax in (0, 'index'):
            data = []
            for j in range(len(o.data)):
                r = o.column(j).d_binop(I, op, other, rev)
                data.append(r.vals)
            return Frame(r.idx if o.data else o.idx, o.cols, data)
        if fill is not None:
            if isinstance(o, Series) and isinstance(other, Series):
                ix, ps = o.aligned(I, other)
                out = []
                for x, y in ps:
                    if isnan(x) and isnan(y):
                        out.append(NAN)
                        continue
                    x = fill if isnan(x) else x
                    y = fill if isnan(y) else y
                    out.append(bop(I, op, y, x) if rev else
                               bop(I, op, x, y))
                return Series(out, ix, o.name)
            if isinstance(o, Frame) and isinstance(other, Frame):
                ix = union(I, o.idx.labels, other.idx.labels)
                cs = union(I, o.cols.labels, other.cols.labels)
                data = []
                for c in cs:
                    p, q = o.cols.find(I, c), other.cols.find(I, c)
                    s = o.column(p[0]) if p else Series(
                        [NAN] * len(o.idx.labels), o.idx)
                    t = other.column(q[0]) if q else Series(
                        [NAN] * len(other.idx.labels), other.idx)
                    data.append(f(I, s, [t], {'fill_value': fill}).vals)
                return Frame(o.idx.like(ix), o.cols.like(cs), data)
            return NotImplemented
        return I.binop(op, other, o) if rev else I.binop(op, o, other)
    COMMON[n] = f


for _n, _o in (('add', '+'), ('sub', '-'), ('subtract', '-'), ('mul', '*'),
               ('multiply', '*'), ('div', '/'), ('divide', '/'),
               ('truediv', '/')):
    arith(_n, _o)
arith('radd', '+', True)
arith('rsub', '-', True)


@com('pow')
def _(I, o, a, k):
    return I.binop('**', o, a[0])


@com('equals')
def _(I, o, a, k):
    return key_of(o) == key_of(a[0])


# series only
@ser('items', 'iteritems')
def _(I, o, a, k):
    return AList(list(zip(o.idx.labels, o.vals)))


@ser('tolist', 'to_list')
def _(I, o, a, k):
    return AList(o.vals)


@ser('to_dict')
def _(I, o, a, k):
    return ADict(list(zip(o.idx.labels, o.vals)))


@ser('get')
def _(I, o, a, k):
    p = o.idx.find(I, a[0])
    return o.vals[p[0]] if p else arg(a, k, 1, 'default')


@ser('to_frame')
def _(I, o, a, k):
    n = arg(a, k, 0, 'name', o.name)
    r = Frame(o.idx, Idx([0 if n is None else n]), [list(o.vals)])
    return r


@ser('squeeze')
def _(I, o, a, k):
    return o.vals[0] if len(o.vals) == 1 else o


@ser('unique')
def _(I, o, a, k):
    return Arr(IDX['unique'](I, Idx(o.vals), [], {}).labels)


@ser('idxmax', 'idxmin')
def _(I, o, a, k):
    return NotImplemented


def idxext(op):
    def f(I, o, a, k):
        best = None
        for i, v in enumerate(o.vals):
            if isnan(v):
                continue
            if best is None or cop(I, op, v, o.vals[best]):
                best = i
        if best is None:
            I.throw('ValueError', 'attempt to get argmax of an empty '
                    'sequence')
        return o.idx.labels[best]
    return f


SER['idxmax'] = idxext('>')
SER['idxmin'] = idxext('<')
SER['argmax'] = lambda I, o, a, k: ARR['argmax'](I, Arr(o.vals), [], {})
SER['argmin'] = lambda I, o, a, k: ARR['argmin'](I, Arr(o.vals), [], {})


@ser('sort_values')
def _(I, o, a, k):
    return inplace(I, o, k, o.take(order(I, o.vals,
                                         k.get('ascending', True))))


@ser('apply', 'map')
def _(I, o, a, k):
    f = a[0]
    if isinstance(f, (ADict, Opq, str)):
        return NotImplemented
    return o.like([I.call(f, [v], {}) for v in o.vals])


@ser('diff')
def _(I, o, a, k):
    n = arg(a, k, 0, 'periods', 1)
    if isinstance(n, bool) or not isinstance(n, int):
        return NotImplemented
    m = len(o.vals)
    return o.like([bop(I, '-', o.vals[i], o.vals[i - n])
                   if 0 <= i - n < m else NAN for i in range(m)])


@ser('shift')
def _(I, o, a, k):
    n = arg(a, k, 0, 'periods', 1)
    if not isinstance(n, int) or k.get('freq') is not None:
        return NotImplemented
    m = len(o.vals)
    return o.like([o.vals[i - n] if 0 <= i - n < m else NAN
                   for i in range(m)])


@ser('cumsum')
def _(I, o, a, k):
    out, t = [], 0
    for c in o.vals:
        if isnan(c):
            out.append(NAN)
            continue
        t = bop(I, '+', t, c)
        out.append(t)
    return o.like(out)


@ser('rename')
def _(I, o, a, k):
    n = arg(a, k, 0, 'index')
    if isinstance(n, (str, tuple, int)) or n is None:
        return Series(o.vals, o.idx, n)
    return NotImplemented


@ser('reindex')
def _reindex(I, o, a, k):
    l = as_list(I, arg(a, k, 0, 'index'))
    if l is None or k.get('method'):
        return NotImplemented
    if unchanged(I, o.idx, l):
        return Series(list(o.vals), o.idx, o.name)
    fv = k.get('fill_value', NAN)
    out = []
    for x in l:
        f = o.idx.find(I, x)
        if len(f) > 1:
            I.throw('ValueError', 'cannot reindex on an axis with duplicate '
                    'labels')
        out.append(o.vals[f[0]] if f else fv)
    return Series(out, o.idx.like(l), o.name)


def unchanged(I, ix, l):
    """the labels are those of the index, one by one"""
    return len(l) == len(ix.labels) and all(
        key_of(x) == key_of(y) for x, y in zip(l, ix.labels))


@ser('first_valid_index')
def _(I, o, a, k):
    for l, v in zip(o.idx.labels, o.vals):
        if not isnan(v) and v is not None:
            return l
    return None


@ser('last_valid_index')
def _(I, o, a, k):
    for l, v in reversed(list(zip(o.idx.labels, o.vals))):
        if not isnan(v) and v is not None:
            return l
    return None


@ser('isin')
def _(I, o, a, k):
    l = as_list(I, a[0])
    if l is None:
        return NotImplemented
    return o.like([any(same(I, x, y) for y in l) for x in o.vals])


@ser('where')
def _(I, o, a, k):
    c = as_list(I, a[0])
    alt = arg(a, k, 1, 'other', NAN)
    if c is None or not all(isinstance(x, bool) for x in c):
        return NotImplemented
    return o.like([v if b else alt for v, b in zip(o.vals, c)])


@ser('nonzero')
def _(I, o, a, k):
    return ARR['nonzero'](I, Arr(o.vals), [], {})


@ser('reset_index')
def _(I, o, a, k):
    if k.get('drop'):
        return Series(list(o.vals), None, o.name)
    if a or set(k) - {'drop'} or o.idx.multi():
        return NotImplemented
    return Frame(Idx(range(len(o.vals))), Idx(
        [o.idx.name or 'index', 0 if o.name is None else o.name]),
        [list(o.idx.labels), list(o.vals)])


@ser('drop')
def _(I, o, a, k):
    l = arg(a, k, 0, 'labels')
    l = as_list(I, l) if not isinstance(l, (str, tuple)) else [l]
    if l is None:
        return NotImplemented
    for x in l:
        if not o.idx.find(I, x):
            I.throw('KeyError', x)
    return inplace(I, o, k, o.take([
        i for i, lab in enumerate(o.idx.labels)
        if not any(same(I, lab, x) for x in l)]))


# frame only
@frm('iterrows')
def _(I, o, a, k):
    return AGen(iter([(l, o.row(i)) for i, l in enumerate(o.idx.labels)]),
                'iterrows')


@frm('items', 'iteritems')
def _(I, o, a, k):
    return AList([(c, o.column(j)) for j, c in enumerate(o.cols.labels)])


@frm('idxmax', 'idxmin')
def _(I, o, a, k):
    return NotImplemented


def frmext(n):
    def f(I, o, a, k):
        if a or k:
            return NotImplemented
        return Series([SER[n](I, Series(d, o.idx), [], {}) for d in o.data],
                      o.cols)
    return f


FRM['idxmax'], FRM['idxmin'] = frmext('idxmax'), frmext('idxmin')


@frm('get')
def _(I, o, a, k):
    return o.d_getitem(I, a[0]) if o.cols.find(I, a[0]) else \
        arg(a, k, 1, 'default')


@frm('squeeze')
def _(I, o, a, k):
    n, m = len(o.idx.labels), len(o.data)
    ax = arg(a, k, 0, 'axis')
    if m == 1 and ax in (None, 1, 'columns'):
        if n == 1 and ax is None:
            return o.data[0][0]
        return o.column(0)
    if n == 1 and ax in (None, 0, 'index'):
        return o.row(0)
    return o


@frm('drop')
def _(I, o, a, k):
    if 'columns' in k:
        l, ax = k['columns'], 1
    elif 'index' in k:
        l, ax = k['index'], 0
    else:
        l, ax = arg(a, k, 0, 'labels'), k.get('axis', 0)
        if len(a) > 1:
            I.throw('TypeError', 'drop() takes from 1 to 2 positional '
                    'arguments but 3 were given')
    l = [l] if isinstance(l, (str, tuple, Lin, int)) else as_list(I, l)
    if l is None:
        return NotImplemented
    if ax in (1, 'columns'):
        drop = set()
        for x in l:
            f = o.cols.find(I, x)
            if not f and o.cols.multi():
                f = [j for j, c in enumerate(o.cols.labels) if c[0] == x]
            if not f and k.get('errors') != 'ignore':
                I.throw('KeyError', x)
            drop |= set(f)
        return inplace(I, o, k, o.pick(None, [
            j for j in range(len(o.data)) if j not in drop]))
    drop = set()
    for x in l:
        f = o.idx.find(I, x)
        if not f and k.get('errors') != 'ignore':
            I.throw('KeyError', x)
        drop |= set(f)
    return inplace(I, o, k, o.pick([i for i in range(len(o.idx.labels))
                                    if i not in drop]))


@frm('rename')
def _(I, o, a, k):
    c = k.get('columns')
    if c is None and k.get('axis') in (1, 'columns'):
        c = arg(a, k, 0, 'mapper')
        a = a[1:]
    if k.get('index') is not None or a or k.get('level') is not None:
        return NotImplemented
    if isinstance(c, ADict):
        one = lambda l: I.dict_get(c, l, l)
    elif isinstance(c, (AFunc, Native, ABound)) or isinstance(c, Ext):
        one = lambda l: I.call(c, [l], {})
    else:
        return NotImplemented
    # several levels: each entry by itself
    new = [tuple(one(x) for x in l) if o.cols.multi() and isinstance(
        l, tuple) else one(l) for l in o.cols.labels]
    return inplace(I, o, k, Frame(o.idx, o.cols.like(new),
                                  [list(d) for d in o.data]))


@frm('reindex')
def _(I, o, a, k):
    ix = arg(a, k, 0, 'index')
    cs = k.get('columns')
    if k.get('method'):
        return NotImplemented
    r = o
    if ix is not None:
        l = as_list(I, ix)
        if l is None:
            return NotImplemented
        if not unchanged(I, o.idx, l):
            pos = [o.idx.find(I, x) for x in l]
            if any(len(p) > 1 for p in pos):
                I.throw('ValueError', 'cannot reindex on an axis with '
                        'duplicate labels')
            r = Frame(o.idx.like(l), o.cols, [
                [d[p[0]] if p else NAN for p in pos] for d in o.data])
    if cs is not None:
        l = as_list(I, cs)
        if l is None:
            return NotImplemented
        pos = [r.cols.find(I, x) for x in l]
        r = Frame(r.idx, r.cols.like(l), [
            list(r.data[p[0]]) if p else [NAN] * len(r.idx.labels)
            for p in pos])
    return r


@frm('apply')
def _(I, o, a, k):
    f = a[0]
    ax = k.get('axis', 0)
    rest = {x: v for x, v in k.items() if x not in ('axis',)}
    if isinstance(f, (Opq, str)):
        return NotImplemented
    if ax in (0, 'index'):
        rs = [I.call(f, [o.column(j)], rest) for j in range(len(o.data))]
        if rs and all(isinstance(r, Series) for r in rs):
            return Frame(rs[0].idx, o.cols, [list(r.vals) for r in rs])
        if not rs:
            return o.copy()
        if any(isinstance(r, (Frame, Arr, AList)) for r in rs):
            return NotImplemented
        return Series(rs, o.cols)
    rs = [I.call(f, [o.row(i)], rest) for i in range(len(o.idx.labels))]
    if any(isinstance(r, (Frame, Series, Arr, AList)) for r in rs):
        return NotImplemented
    return Series(rs, o.idx)


@frm('applymap', 'map')
def _(I, o, a, k):
    return mapped(o, lambda v: I.call(a[0], [v], {}))


@frm('to_dict')
def _(I, o, a, k):
    if a or k:
        return NotImplemented
    return ADict([(c, ADict(list(zip(o.idx.labels, d))))
                  for c, d in zip(o.cols.labels, o.data)])


@frm('pop')
def _(I, o, a, k):
    r = o.d_getitem(I, a[0])
    o.d_delitem(I, a[0])
    return r


@frm('set_index')
def _(I, o, a, k):
    c = arg(a, k, 0, 'keys')
    if isinstance(c, str):
        f = o.cols.find(I, c)
        if not f:
            I.throw('KeyError', c)
        q = [j for j in range(len(o.data)) if j != f[0]] \
            if k.get('drop', True) else None
        r = o.pick(None, q)
        r.idx = Idx(o.data[f[0]], c)
        return inplace(I, o, k, r)
    return NotImplemented


@frm('reset_index')
def _(I, o, a, k):
    r = o.copy()
    r.idx = Idx(range(len(o.idx.labels)))
    if not k.get('drop'):
        r.cols = o.cols.like([o.idx.name or 'index'] + o.cols.labels)
        r.data = [list(o.idx.labels)] + r.data
    return inplace(I, o, k, r)


@frm('insert')
def _(I, o, a, k):
    i, c, v = a[:3]
    o.d_setitem(I, c, v)
    q = list(range(len(o.data) - 1))
    q.insert(i, len(o.data) - 1)
    o.data = [o.data[j] for j in q]
    o.cols = o.cols.like([o.cols.labels[j] for j in q])


@frm('groupby')
def _(I, o, a, k):
    by, level = arg(a, k, 0, 'by'), k.get('level')
    if level == 0 and by is None:
        keys = list(o.idx.labels)
        if o.idx.multi():
            return NotImplemented
    elif by is not None and not isinstance(by, (Dom, AList)) and \
            o.cols.find(I, by):
        keys = o.d_getitem(I, by).vals
    else:
        return NotImplemented
    return Groups(I, o, keys)


@ser('groupby')
def _(I, o, a, k):
    by, level = arg(a, k, 0, 'by'), k.get('level')
    if level == 0 and by is None:
        return Groups(I, o, list(o.idx.labels))
    return NotImplemented


def anchored(labels):
    """(anchor, [seconds after it]) of time stamps which count from one
    atom, else None"""
    co = None
    out = []
    for l in labels:
        if not isinstance(l, Lin) or l.kind != 'ts' or len(l.co) != 1 or (
                list(l.co.values()) != [1]):
            return None
        if co is None:
            co = l
        if list(co.co) != list(l.co):
            return None
        out.append(l.const)
    return (co.add(Lin('td', {}, co.const), -1), out) if co is not None \
        else None


@com('resample')
def _(I, o, a, k):
    rule = arg(a, k, 0, 'rule')
    for x in k:
        if x not in ('rule', 'axis', 'closed', 'label', 'convention', 'kind',
                     'on', 'level', 'origin', 'offset', 'group_keys'):
            I.throw('TypeError', 'resample() got an unexpected keyword '
                    'argument %r' % x)
    if set(k) - {'rule'} or len(a) > 1 or not isinstance(rule, str):
        return NotImplemented
    p = period_of(rule)
    an = anchored(o.idx.labels)
    if p is None or (an is None and o.idx.labels) or not p or (
            86400 % p and p % 86400):
        return NotImplemented
    if not o.idx.is_dt():
        I.throw('TypeError', 'Only valid with DatetimeIndex')
    return Bins(o, p, an)


class Bins(Dom):
    """o.resample(p seconds): the anchor of the index is a midnight"""
    __slots__ = ('o', 'p', 'keys')

    def __init__(self, o, p, an):
        self.o, self.p, self.keys = o, p, []
        if an is None:
            return
        base, secs = an
        lo = min(secs) // min(p, 86400) * min(p, 86400)
        i = 0
        while lo + i * p <= max(secs):
            s = lo + i * p
            self.keys.append((base.add(Lin('td', {}, s)), [
                j for j, x in enumerate(secs) if s <= x < s + p]))
            i += 1
            if i > 600:
                raise Undecided('resample into more than 600 bins')

    def d_getattr(self, I, name):
        if name not in ('sum', 'mean', 'min', 'max', 'count', 'first',
                        'last', 'median', 'std'):
            return NotImplemented

        def f(I, a, k):
            if a or k:
                raise Undecided('resample().%s with arguments' % name)
            ix = Idx([x for x, _ in self.keys], dt=True)
            ix.freq = self.p

            def cell(vals):
                ok = [v for v in vals if not isnan(v)]
                if name in ('first', 'last'):
                    return (ok[0] if name == 'first' else ok[-1]) if ok \
                        else NAN
                return I.call(I.getattr(Series(vals), name), [], {})
            if isinstance(self.o, Series):
                return Series([cell([self.o.vals[j] for j in q])
                               for _, q in self.keys], ix, self.o.name)
            return Frame(ix, self.o.cols, [
                [cell([d[j] for j in q]) for _, q in self.keys]
                for d in self.o.data])
        return Native(f, name)


class Groups(Dom):
    __slots__ = ('o', 'keys')

    def __init__(self, I, o, keys):
        self.o = o
        ks = []
        for i, x in enumerate(keys):
            if isnan(x):
                continue
            for kk, p in ks:
                if same(I, kk, x):
                    p.append(i)
                    break
            else:
                ks.append((x, [i]))
        od = order(I, [x for x, _ in ks])
        self.keys = [ks[i] for i in od]

    def d_iter(self, I):
        return [(x, pos_take(self.o, p)) for x, p in self.keys]

    def d_len(self, I):
        return len(self.keys)

    def d_getattr(self, I, name):
        if name in ('sum', 'mean', 'min', 'max', 'count'):
            def f(I, a, k):
                rows = [I.call(I.getattr(pos_take(self.o, p), name), [], {})
                        for _, p in self.keys]
                ix = Idx([x for x, _ in self.keys])
                if isinstance(self.o, Series):
                    return Series(rows, ix, self.o.name)
                return Frame(ix, self.o.cols, [
                    [r.vals[j] for r in rows]
                    for j in range(len(self.o.data))])
            return Native(f, name)
        if name in ('first', 'last'):
            def f(I, a, k):
                rows = [p[0 if name == 'first' else -1]
                        for _, p in self.keys]
                r = pos_take(self.o, rows)
                r.idx = Idx([x for x, _ in self.keys])
                return r
            return Native(f, name)
        return NotImplemented


# ------------------------------------------------------- library functions
TM = {}


def tm(*names):
    def d(f):
        for n in names:
            TM[n] = f
        return f
    return d


def mk_idx(I, v):
    if isinstance(v, Idx):
        return v
    l = as_list(I, v)
    if l is None:
        return None
    return Idx(l)


@tm('pandas.Index', 'pandas.DatetimeIndex')
def _(I, a, k):
    v = arg(a, k, 0, 'data')
    ix = mk_idx(I, v)
    if ix is None:
        return NotImplemented
    r = ix.like(ix.labels)
    r.dt = ix.dt
    if k.get('tz') is not None:
        r = tzmove(I, r, k['tz'])
    return r


@tm('pandas.MultiIndex.from_tuples')
def _(I, a, k):
    l = as_list(I, arg(a, k, 0, 'tuples'))
    if l is None:
        return NotImplemented
    if not l:
        I.throw('TypeError', 'Cannot infer number of levels from empty list')
    out = []
    for t in l:
        t2 = as_list(I, t)
        if t2 is None:
            return NotImplemented
        out.append(tuple(t2))
    n = arg(a, k, 2, 'names')
    return Idx(out, names=as_list(I, n) if n is not None else [None, None])


@tm('pandas.MultiIndex.from_product')
def _(I, a, k):
    l = as_list(I, a[0])
    ls = [as_list(I, x) for x in l]
    if any(x is None for x in ls) or len(ls) != 2:
        return NotImplemented
    n = arg(a, k, 2, 'names')
    return Idx([(x, y) for x in ls[0] for y in ls[1]],
               names=as_list(I, n) if n is not None else [None, None])


@tm('pandas.MultiIndex.from_arrays')
def _(I, a, k):
    l = as_list(I, a[0])
    ls = [as_list(I, x) for x in l]
    if any(x is None for x in ls) or len(ls) != 2:
        return NotImplemented
    n = arg(a, k, 2, 'names')
    return Idx(list(zip(*ls)), names=as_list(I, n) if n is not None
               else [None, None])


@tm('pandas.Series')
def _(I, a, k):
    v = arg(a, k, 0, 'data')
    ix = arg(a, k, 1, 'index')
    name = k.get('name')
    if isinstance(v, Opq) or isinstance(ix, Opq):
        return NotImplemented
    ixv = None if ix is None else mk_idx(I, ix)
    if isinstance(v, Series):
        if ixv is None:
            return Series(v.vals, v.idx, name or v.name)
        return _reindex(I, v, [ixv], {})
    if isinstance(v, ADict):
        s = Series([x for _, x in v.pairs], Idx([x for x, _ in v.pairs]),
                   name)
        return s if ixv is None else _reindex(I, s, [ixv], {})
    if v is None and 'data' not in k and not a:
        n = 0 if ixv is None else len(ixv.labels)
        return Series([NAN] * n, ixv or Idx([]), name)
    l = as_list(I, v) if not isinstance(v, (str, tuple)) or isinstance(
        v, tuple) else None
    if l is None:
        if v is None and ixv is None:
            return Series([], Idx([]), name)
        if ixv is None:
            return Series([v], None, name)
        return Series([v] * len(ixv.labels), ixv, name)
    if ixv is not None and len(ixv.labels) != len(l):
        I.throw('ValueError', 'Length of values (%d) does not match length '
                'of index (%d)' % (len(l), len(ixv.labels)))
    return Series(l, ixv, name)


@tm('pandas.DataFrame')
def _(I, a, k):
    v = arg(a, k, 0, 'data')
    ix, cs = arg(a, k, 1, 'index'), arg(a, k, 2, 'columns')
    if any(isinstance(x, Opq) for x in (v, ix, cs)):
        return NotImplemented
    ixv = None if ix is None else mk_idx(I, ix)
    csv = None if cs is None else mk_idx(I, cs)
    if v is None:
        return Frame(ixv, csv)
    if isinstance(v, Bins):
        # a row per bin, holding its label and its readings, which no
        # further operation on numbers accepts
        I.throw('TypeError', 'Could not convert the readings of a bin to '
                'numeric')
    if isinstance(v, Frame):
        r = v.copy()
        if ixv is not None:
            r = FRM['reindex'](I, r, [ixv], {})
        if csv is not None:
            r = FRM['reindex'](I, r, [], {'columns': csv})
        return r
    if isinstance(v, Series):
        n = v.name
        if csv is not None:
            if len(csv.labels) != 1:
                return NotImplemented
            if n is not None and not same(I, n, csv.labels[0]):
                return NotImplemented
            r = Frame(v.idx, csv, [list(v.vals)])
        else:
            r = Frame(v.idx, Idx([0 if n is None else n]), [list(v.vals)])
        if ixv is not None:
            r = FRM['reindex'](I, r, [ixv], {})
        return r
    if isinstance(v, ADict):
        cols = [c for c, _ in v.pairs]
        vals = [x for _, x in v.pairs]
        if csv is not None:
            vals = [I.dict_get(v, c, NAN) for c in csv.labels]
            cols = csv.labels
        base = ixv
        if base is None:
            ss = [x for x in vals if isinstance(x, Series)]
            if ss:
                l = list(ss[0].idx.labels)
                for s in ss[1:]:
                    l = union(I, l, s.idx.labels)
                base = ss[0].idx.like(l)
            else:
                n = [len(as_list(I, x)) for x in vals
                     if as_list(I, x) is not None and
                     not isinstance(x, (str, tuple))]
                if not vals:
                    base = Idx([])
                elif not n:
                    I.throw('ValueError', 'If using all scalar values, you '
                            'must pass an index')
                elif len(set(n)) > 1:
                    I.throw('ValueError', 'All arrays must be of the same '
                            'length')
                else:
                    base = Idx(range(n[0]))
        r = Frame(base, Idx([]), [])
        for c, x in zip(cols, vals):
            if isinstance(x, Series):
                x = _reindex(I, x, [base], {}) if not (
                    len(x.vals) == len(base.labels) and all(
                        same(I, p, q) for p, q in zip(
                            x.idx.labels, base.labels))) else x
                r.data.append(list(x.vals))
            elif isinstance(x, Opq):
                return NotImplemented
            else:
                l = as_list(I, x) if not isinstance(x, (str, tuple)) \
                    else None
                if l is not None and len(l) != len(base.labels):
                    I.throw('ValueError', 'length mismatch')
                r.data.append(l if l is not None else
                              [x] * len(base.labels))
            r.cols.labels.append(c)
        if csv is not None:
            r.cols = csv
        return r
    if isinstance(v, Arr) and v.ndim == 2:
        n, m = v.shape
        c = csv or Idx(range(m))
        i = ixv or Idx(range(n))
        if len(c.labels) != m or len(i.labels) != n:
            I.throw('ValueError', 'Shape of passed values is %s, indices '
                    'imply %s' % ((n, m), (len(i.labels), len(c.labels))))
        return Frame(i, c, v.lines(0) if m else [])
    l = as_list(I, v)
    if l is None:
        if isinstance(v, SCALAR) or isinstance(v, Lin):
            if ixv is None or csv is None:
                return NotImplemented
            r = Frame(ixv, csv, [[v] * len(ixv.labels)
                                 for _ in csv.labels])
            r.block = True
            return r
        return NotImplemented
    if not l:
        return Frame(ixv, csv)
    if all(isinstance(x, ADict) for x in l):
        cols = []
        for x in l:
            for c, _ in x.pairs:
                if not any(same(I, c, y) for y in cols):
                    cols.append(c)
        data = [[I.dict_get(x, c, NAN) for x in l] for c in cols]
        return Frame(ixv or Idx(range(len(l))), csv or Idx(cols), data)
    if all(isinstance(x, Series) for x in l):
        cols = list(l[0].idx.labels)
        for x in l[1:]:
            for c in x.idx.labels:
                if not any(same(I, c, y) for y in cols):
                    cols.append(c)
        data = []
        for c in cols:
            col = []
            for x in l:
                f = x.idx.find(I, c)
                col.append(x.vals[f[0]] if f else NAN)
            data.append(col)
        names = [x.name for x in l]
        if ixv is None and all(n is not None for n in names):
            ixv = Idx(names)
        return Frame(ixv or Idx(range(len(l))), csv or Idx(cols), data)
    if isinstance(v, (Arr, Idx)) or not any(
            isinstance(x, (AList, tuple, Arr)) for x in l):
        return Frame(ixv or Idx(range(len(l))), csv or Idx([0]), [l])
    rows = [as_list(I, x) for x in l]
    if any(x is None for x in rows) or len({len(x) for x in rows}) != 1:
        return NotImplemented
    m = len(rows[0])
    if csv is not None and len(csv.labels) != m:
        I.throw('ValueError', '%d columns passed, passed data had %d columns'
                % (len(csv.labels), m))
    return Frame(ixv or Idx(range(len(l))), csv or Idx(range(m)),
                 [[r[j] for r in rows] for j in range(m)])


@tm('pandas.concat')
def _(I, a, k):
    objs = arg(a, k, 0, 'objs')
    l = as_list(I, objs) if not isinstance(objs, ADict) else None
    if l is None:
        return NotImplemented
    l = [x for x in l if x is not None]
    if not l:
        I.throw('ValueError', 'No objects to concatenate')
    ax = arg(a, k, 1, 'axis', 0)
    if any(not isinstance(x, (Frame, Series)) for x in l) or k.get('keys'):
        return NotImplemented
    if ax in (1, 'columns'):
        labels = list(l[0].idx.labels)
        for x in l[1:]:
            if k.get('join') == 'inner' or (len(a) > 2 and a[2] == 'inner'):
                labels = [y for y in labels if x.idx.find(I, y)]
            else:
                labels = union(I, labels, x.idx.labels)
        cols, data = [], []
        auto = 0
        equal = all(len(x.idx.labels) == len(labels0) and all(
            same(I, p, q) for p, q in zip(x.idx.labels, labels0))
            for x in l for labels0 in (l[0].idx.labels,))
        if equal:
            labels = list(l[0].idx.labels)
        for x in l:
            fs = [(x.name, x.vals)] if isinstance(x, Series) else list(
                zip(x.cols.labels, x.data))
            for c, d in fs:
                if c is None:
                    c = auto
                    auto += 1
                cols.append(c)
                col = []
                for i, y in enumerate(labels):
                    f = [i] if equal else x.idx.find(I, y)
                    if len(f) > 1:
                        raise Undecided('concat duplicate labels')
                    col.append(d[f[0]] if f else NAN)
                data.append(col)
        return Frame(l[0].idx.like(labels), l[0].cols.like(cols)
                     if isinstance(l[0], Frame) else Idx(cols), data)
    labels = [y for x in l for y in x.idx.labels]
    if k.get('verify_integrity') and dups(I, labels):
        I.throw('ValueError', 'Indexes have overlapping values')
    if k.get('ignore_index'):
        labels = list(range(len(labels)))
    base = next((x.idx for x in l if x.idx.labels), l[0].idx)
    if all(isinstance(x, Series) for x in l):
        return Series([v for x in l for v in x.vals], base.like(labels),
                      l[0].name if all(same(I, x.name, l[0].name)
                                       for x in l) else None)
    fr = [x if isinstance(x, Frame) else SER['to_frame'](I, x, [], {})
          for x in l]
    cols = []
    for x in fr:
        for c in x.cols.labels:
            if not any(same(I, c, y) for y in cols):
                cols.append(c)
    data = []
    for c in cols:
        col = []
        for x in fr:
            f = x.cols.find(I, c)
            col += x.data[f[0]] if f else [NAN] * len(x.idx.labels)
        data.append(col)
    return Frame(base.like(labels), next(
        (x.cols for x in fr if x.cols.labels), fr[0].cols).like(cols), data)


@tm('pandas.to_numeric')
def _(I, a, k):
    if isinstance(a[0], (Series, Arr, Idx)):
        return a[0]
    return NotImplemented


def _isnull(I, a, k):
    v = a[0]
    if isinstance(v, (Series, Frame)):
        return mapped(v, isnan)
    if isinstance(v, (Arr, Idx, AList)):
        o = toarr(I, v)
        return Arr([isnan(c) for c in o.cells], o.shape, 'bool')
    if isinstance(v, (int, float, str, Lin, AObj)) or v is None or (
            isinstance(v, Ext)):
        return isnan(v)
    return NotImplemented


def _notnull(I, a, k):
    r = _isnull(I, a, k)
    if r is NotImplemented:
        return r
    return I.unop('~', r) if isinstance(r, Dom) else not r


for _n in ('pandas.isnull', 'pandas.isna', 'numpy.isnan'):
    TM[_n] = _isnull
TM['pandas.notnull'] = TM['pandas.notna'] = _notnull


@tm('numpy.array', 'numpy.asarray', 'numpy.atleast_1d', 'numpy.copy')
def _(I, a, k):
    r = toarr(I, a[0])
    if r is None:
        if isinstance(a[0], (int, float, Lin)):
            return Arr([a[0]]) if False else NotImplemented
        return NotImplemented
    return Arr(list(r.cells), r.shape, r.dtype)


UNITS = {'s': 1, 'S': 1, 'T': 60, 'min': 60, 'H': 3600, 'h': 3600,
         'D': 86400, 'd': 86400}


def period_of(f):
    """seconds of a fixed frequency, else None"""
    import re
    m = re.match(r'^(\d*)([a-zA-Z]+)$', f) if isinstance(f, str) else None
    return int(m.group(1) or 1) * UNITS[m.group(2)] \
        if m and m.group(2) in UNITS else None


@tm('pandas.date_range')
def _(I, a, k):
    st, en = arg(a, k, 0, 'start'), arg(a, k, 1, 'end')
    n, fr = arg(a, k, 2, 'periods'), arg(a, k, 3, 'freq', 'D')
    for x in k:
        if x not in ('start', 'end', 'periods', 'freq', 'inclusive', 'tz',
                     'normalize', 'name'):
            I.throw('TypeError', 'unexpected keyword argument %r' % x)
    if isinstance(fr, Lin) and fr.kind == 'td' and fr.is_const():
        p = fr.const
    else:
        p = period_of(fr)
    inc = k.get('inclusive', 'both')
    if isinstance(st, str):
        st = Lin('ts', {'date(%r)' % st: 1})
    if p is None or not isinstance(st, Lin) or st.kind != 'ts' or \
            k.get('normalize') or (en is None) == (n is None):
        return NotImplemented
    if not p:
        I.throw('ValueError', 'zero frequency')
    out = []
    while n is None or len(out) < n:
        t = st.add(Lin('td', {}, p * len(out)))
        if n is None:
            c = cop(I, '<=', t, en)
            if not c:
                break
        if len(out) > 400:
            raise Undecided('date_range')
        out.append(t)
    if inc in ('right', 'neither') and out:
        out = out[1:]
    if inc in ('left', 'neither') and out and (
            en is not None and cop(I, '==', out[-1], en)):
        out = out[:-1]
    return Idx(out, k.get('name'), dt=True, tz=st.tz)


def filled(v):
    def f(I, a, k):
        sh = arg(a, k, 0, 'shape')
        if isinstance(sh, int):
            sh = (sh,)
        if isinstance(sh, AList):
            sh = tuple(sh.items)
        if not isinstance(sh, tuple) or not all(isinstance(x, int)
                                                for x in sh):
            return NotImplemented
        n = 1
        for x in sh:
            n *= x
        t = arg(a, k, 1, 'dtype')
        if t is not None:
            return ARR['astype'](I, Arr([v] * n, sh), [t], {})
        return Arr([v] * n, sh)
    return f


TM['numpy.zeros'] = filled(0)
TM['numpy.ones'] = filled(1)
TM['numpy.empty'] = filled(NAN)


@tm('numpy.full')
def _(I, a, k):
    t = arg(a, k, 2, 'dtype')
    return filled(arg(a, k, 1, 'fill_value'))(
        I, a[:1], {x: y for x, y in k.items() if x == 'shape' or (
            x == 'dtype' and t is not None)})


def like_fill(v):
    def f(I, a, k):
        o = toarr(I, a[0])
        return NotImplemented if o is None else Arr([v] * len(o.cells),
                                                    o.shape)
    return f


TM['numpy.zeros_like'] = like_fill(0)
TM['numpy.ones_like'] = like_fill(1)


@tm('numpy.diff')
def _(I, a, k):
    o = toarr(I, a[0])
    n = arg(a, k, 1, 'n', 1)
    if o is None or o.ndim != 1 or n != 1:
        return NotImplemented
    if o.cells and all(isinstance(c, bool) for c in o.cells):
        return Arr([x != y for x, y in zip(o.cells, o.cells[1:])],
                   dtype='bool')
    return Arr([bop(I, '-', y, x) for x, y in zip(o.cells, o.cells[1:])])


@tm('numpy.concatenate', 'numpy.hstack')
def _(I, a, k):
    l = as_list(I, a[0])
    if l is None:
        return NotImplemented
    parts = [toarr(I, x) for x in l]
    if any(p is None for p in parts):
        return NotImplemented
    if any(p.ndim > 1 for p in parts):
        ax = arg(a, k, 1, 'axis', 0)
        if ax == 0 and len({p.shape[1:] for p in parts}) == 1:
            return Arr([c for p in parts for c in p.cells],
                       (sum(p.shape[0] for p in parts),) +
                       parts[0].shape[1:])
        return NotImplemented
    return Arr([c for p in parts for c in p.cells])


@tm('numpy.vstack')
def _(I, a, k):
    l = as_list(I, a[0])
    if l is None:
        return NotImplemented
    return toarr(I, AList(l)) or NotImplemented


@tm('numpy.append')
def _(I, a, k):
    x, y = toarr(I, a[0]), a[1]
    if x is None or arg(a, k, 2, 'axis') is not None:
        return NotImplemented
    y2 = toarr(I, y)
    return Arr(x.cells + (y2.cells if y2 is not None else [y]))


def via(name):
    def f(I, a, k):
        v = a[0]
        if isinstance(v, (Series, Frame)) and (
                SER if isinstance(v, Series) else FRM).get(name):
            kk = dict(k)
            if isinstance(v, Frame) and name in ('sum', 'mean', 'min',
                                                 'max'):
                if arg(a[1:], k, 0, 'axis') is None and name in (
                        'mean', 'min', 'max'):
                    return NotImplemented
            return (SER if isinstance(v, Series) else FRM)[name](
                I, v, list(a[1:]), kk)
        o = toarr(I, v)
        if o is None:
            if isinstance(v, AGen):
                o = Arr(list(I.iterate(v)))
            else:
                return NotImplemented
        return ARR[name](I, o, list(a[1:]), k)
    return f


for _n in ('sum', 'mean', 'min', 'max', 'any', 'all', 'argmin', 'argmax',
           'clip', 'cumsum', 'reshape', 'ravel', 'nonzero', 'argsort',
           'squeeze', 'round'):
    TM['numpy.' + _n] = via(_n)
TM['numpy.amin'] = TM['numpy.min']
TM['numpy.amax'] = TM['numpy.max']
@tm('numpy.histogram')
def _(I, a, k):
    x = toarr(I, arg(a, k, 0, 'a'))
    bins, rng = arg(a, k, 1, 'bins', 10), arg(a, k, 2, 'range')
    if set(k) - {'a', 'bins', 'range'} or x is None:
        return NotImplemented

    def num(v):
        l = lift(v)
        return l.const if l is not None and not l.co and not isnan(v) \
            else None
    xs = [num(c) for c in x.cells if not isnan(c)]
    if any(c is None for c in xs):
        return NotImplemented
    if isinstance(bins, int):
        r = as_list(I, rng) if rng is not None else None
        if r is None:
            if len(xs) != len(x.cells):
                I.throw('ValueError', 'autodetected range is not finite')
            lo, hi = (min(xs), max(xs)) if xs else (0, 1)
        else:
            if any(isnan(c) for c in r):
                I.throw('ValueError', 'supplied range is not finite')
            lo, hi = num(r[0]), num(r[1])
            if lo is None or hi is None:
                return NotImplemented
        if bins < 1:
            I.throw('ValueError', '`bins` must be positive')
        if lo > hi:
            I.throw('ValueError', 'max must be larger than min in range')
        if lo == hi:
            lo, hi = lo - Fraction(1, 2), hi + Fraction(1, 2)
        edges = [lo + (hi - lo) / bins * i for i in range(bins + 1)]
    else:
        b = toarr(I, bins)
        if b is None:
            return NotImplemented
        edges = [num(c) for c in b.cells]
        if any(c is None for c in edges):
            return NotImplemented
    h = [0] * (len(edges) - 1)
    for c in xs:
        for j in range(len(h)):
            if edges[j] <= c < edges[j + 1] or (
                    j == len(h) - 1 and c == edges[-1]):
                h[j] += 1
    return (Arr(h, dtype='int'),
            bins if not isinstance(bins, int) else
            Arr([plain(Lin('num', {}, c)) for c in edges]))


def nanred(f):
    def g(I, a, k):
        o = toarr(I, a[0])
        if o is None or set(k) - {'axis', 'out', 'dtype', 'keepdims'} or \
                k.get('keepdims'):
            return NotImplemented
        axis, out = arg(a, k, 1, 'axis'), k.get('out')
        if axis is not None and o.ndim > 1:
            if o.ndim > 2 or axis not in (0, 1, -1, -2):
                return NotImplemented
            r = Arr([f(I, l) for l in o.lines(axis)])
        else:
            r = f(I, o.cells)
        if out is None:
            return r
        if not isinstance(out, Arr) or not isinstance(r, Arr) or \
                out.shape != r.shape:
            return NotImplemented
        I.event('mutate', obj=out, how='out=')
        for i, c in enumerate(list(r.cells)):
            out.write(i, c)
        return out
    return g


TM['numpy.nansum'] = nanred(lambda I, l: total(I, l))


def count_nonzero(I, a, k):
    o = toarr(I, a[0]) if len(a) == 1 and not k else None
    if o is None:
        return NotImplemented
    return sum(1 for c in o.cells if isnan(c) or I.truth(c))


TM['numpy.count_nonzero'] = count_nonzero
TM['numpy.nanmean'] = lambda I, a, k: mean(I, toarr(I, a[0]).cells) \
    if toarr(I, a[0]) is not None and len(a) == 1 and not k \
    else NotImplemented


def ufunc1(f):
    def g(I, a, k):
        v = a[0]
        if isinstance(v, (Series, Frame)):
            return mapped(v, lambda c: c if isnan(c) else f(I, c))
        o = toarr(I, v)
        if o is not None:
            return Arr([c if isnan(c) else f(I, c) for c in o.cells],
                       o.shape)
        if isinstance(v, (int, float, Lin)):
            return v if isnan(v) else f(I, v)
        return NotImplemented
    return g


TM['numpy.abs'] = TM['numpy.absolute'] = TM['numpy.fabs'] = ufunc1(absol)
TM['numpy.sqrt'] = TM['math.sqrt'] = ufunc1(sqrt)
for _f in ('sin', 'cos', 'tan', 'radians', 'degrees', 'deg2rad', 'rad2deg'):
    def _g(I, v, f={'deg2rad': 'radians', 'rad2deg': 'degrees'}.get(_f, _f)):
        if isinstance(v, (int, float)):
            return getattr(math, f)(v)
        return Opq(f, (v,))
    TM['numpy.' + _f] = ufunc1(_g)
TM[('attr', 'numpy.pi')] = math.pi
TM['numpy.square'] = ufunc1(lambda I, v: I.binop('*', v, v))


def ufunc2(f):
    def g(I, a, k):
        x, y = a[0], a[1]
        if isinstance(x, Series):
            ix, ps = x.aligned(I, y)
            return Series([f(I, p, q) for p, q in ps], ix, x.name)
        if isinstance(x, Frame) or isinstance(y, Frame):
            return NotImplemented
        o = toarr(I, x)
        if o is not None:
            ps, sh = o.broadcast(I, y)
            return Arr([f(I, p, q) for p, q in ps], sh)
        o = toarr(I, y)
        if o is not None:
            ps, sh = o.broadcast(I, x)
            return Arr([f(I, q, p) for p, q in ps], sh)
        if isinstance(x, (int, float, Lin)) and isinstance(
                y, (int, float, Lin)):
            return f(I, x, y)
        return NotImplemented
    return g


def _mx(op):
    def f(I, x, y):
        if isnan(x) or isnan(y):
            return NAN
        return x if cop(I, op, x, y) else y
    return f


TM['numpy.maximum'] = ufunc2(_mx('>'))
TM['numpy.minimum'] = ufunc2(_mx('<'))
for _n, _o in (('add', '+'), ('subtract', '-'), ('multiply', '*'),
               ('divide', '/'), ('true_divide', '/'), ('power', '**')):
    TM['numpy.' + _n] = (lambda op: lambda I, a, k: NotImplemented
                         if any(isinstance(x, Opq) for x in a) else
                         (bop if all(isinstance(x, (int, float))
                                     for x in a) else I.binop.__func__)(
                             I, op, toarr(I, a[0])
                                 if isinstance(a[0], (AList, tuple))
                                 else a[0], a[1]))(_o)


def logical(f):
    def g(I, x, y):
        return f(I.truth(x), I.truth(y))
    return ufunc2(g)


TM['numpy.logical_and'] = logical(lambda x, y: x and y)
TM['numpy.logical_or'] = logical(lambda x, y: x or y)
TM['numpy.logical_not'] = ufunc1(lambda I, v: not I.truth(v))


@tm('numpy.where')
def _(I, a, k):
    c = a[0]
    o = toarr(I, c)
    if o is None:
        return NotImplemented
    if len(a) == 1:
        if len(o.shape) == 2:
            m = o.shape[1]
            hit = [i for i, b in enumerate(o.cells) if I.truth(b)]
            return (Arr([i // m for i in hit]), Arr([i % m for i in hit]))
        return ARR['nonzero'](I, o, [], {})
    x, y = toarr(I, a[1]), toarr(I, a[2])
    n = len(o.cells)
    if (x is not None and len(x.cells) != n) or (
            y is not None and len(y.cells) != n):
        return NotImplemented
    return Arr([(x.cells[i] if x is not None else a[1])
                if I.truth(b) else (y.cells[i] if y is not None else a[2])
                for i, b in enumerate(o.cells)], o.shape)


@tm('numpy.dot', 'numpy.matmul')
def _(I, a, k):
    o = toarr(I, a[0])
    return NotImplemented if o is None else _dot(I, o, [a[1]], {})


@tm('numpy.searchsorted')
def _(I, a, k):
    o = toarr(I, a[0])
    side = arg(a, k, 2, 'side', 'left')
    if o is None:
        return NotImplemented

    def one(v):
        n = 0
        for c in o.cells:
            if cop(I, '<' if side == 'left' else '<=', c, v):
                n += 1
        return n
    v = toarr(I, a[1])
    return Arr([one(c) for c in v.cells], v.shape) if v is not None \
        else one(a[1])


@tm('numpy.sort')
def _(I, a, k):
    o = toarr(I, a[0])
    if o is None:
        return NotImplemented
    axis = arg(a, k, 1, 'axis', -1)
    if o.ndim == 1 or (axis == 0 and o.ndim == 2 and o.shape[1] == 1):
        return Arr([o.cells[i] for i in order(I, o.cells)], o.shape, o.dtype)
    if axis is None:
        return Arr([o.cells[i] for i in order(I, o.cells)], None, o.dtype)
    if axis in (-1, 1) and o.ndim == 2:
        m, out = o.shape[1], []
        for r in range(o.shape[0]):
            c = o.cells[r * m:(r + 1) * m]
            out += [c[i] for i in order(I, c)] if m > 1 else c
        return Arr(out, o.shape, o.dtype)
    return NotImplemented


@tm('numpy.shape')
def _(I, a, k):
    o = toarr(I, a[0])
    return NotImplemented if o is None else tuple(o.shape)


@tm('numpy.kron')
def _(I, a, k):
    x, y = toarr(I, a[0]), toarr(I, a[1])
    if x is None or y is None or x.ndim != y.ndim or x.ndim > 2:
        return NotImplemented
    if x.ndim == 1:
        return Arr([bop(I, '*', p, q) for p in x.cells for q in y.cells])
    (n, m), (r, s) = x.shape, y.shape
    return Arr([bop(I, '*', x.cells[i * m + j], y.cells[u * s + v])
                for i in range(n) for u in range(r)
                for j in range(m) for v in range(s)], (n * r, m * s))


@tm('numpy.identity', 'numpy.eye')
def _(I, a, k):
    if len(a) != 1 or k or not isinstance(a[0], int):
        return NotImplemented
    n = a[0]
    return Arr([1.0 if i == j else 0.0 for i in range(n) for j in range(n)],
               (n, n))


@tm('numpy.tile')
def _(I, a, k):
    o = toarr(I, a[0])
    reps = arg(a, k, 1, 'reps')
    if isinstance(reps, int):
        reps = (reps,)
    if o is None or not isinstance(reps, tuple):
        return NotImplemented
    d = max(len(reps), o.ndim)
    reps = (1,) * (d - len(reps)) + tuple(reps)
    sh = (1,) * (d - o.ndim) + tuple(o.shape)
    new = tuple(r * s for r, s in zip(reps, sh))
    cells = o.cells
    out = []
    for pos in itertools.product(*map(range, new)):
        i = 0
        for q, s in zip(pos, sh):
            i = i * s + q % s
        out.append(cells[i])
    return Arr(out, new, o.dtype)


@tm('numpy.outer')
def _(I, a, k):
    x, y = toarr(I, a[0]), toarr(I, a[1])
    if x is None or y is None:
        return NotImplemented
    return Arr([bop(I, '*', p, q) for p in x.cells for q in y.cells],
               (len(x.cells), len(y.cells)))


@tm('sklearn.utils.extmath.cartesian')
def _(I, a, k):
    if len(a) != 1 or k:
        return NotImplemented
    cols = [toarr(I, x) for x in I.iterate(a[0])]
    if any(c is None for c in cols):
        return NotImplemented
    rows = list(itertools.product(*[c.cells for c in cols]))
    return Arr([x for r in rows for x in r], (len(rows), len(cols)),
               'int' if cols and cols[0].dtype == 'int' else None)


@frm('itertuples')
def _(I, o, a, k):
    ix = arg(a, k, 0, 'index', True)
    return AGen(iter([((o.idx.labels[i],) if ix else ()) +
                      tuple(d[i] for d in o.data)
                      for i in range(len(o.idx.labels))]))


@tm('numpy.unique')
def _(I, a, k):
    o = toarr(I, a[0])
    if o is None or k:
        return NotImplemented
    out = IDX['unique'](I, Idx(o.cells), [], {}).labels
    return Arr([out[i] for i in order(I, out)])


@tm('numpy.timedelta64')
def _(I, a, k):
    unit = {'s': 1, 'm': 60, 'h': 3600, 'D': 86400,
            'ms': Fraction(1, 1000), 'us': Fraction(1, 10 ** 6),
            'ns': Fraction(1, 10 ** 9)}
    if len(a) == 2 and a[1] in unit:
        l = lift(a[0])
        if l is not None:
            r = l.scale(unit[a[1]])
            r.kind = 'td'
            return r
    return NotImplemented


@tm('sklearn.metrics.mean_absolute_error')
def _(I, a, k):
    x, y = toarr(I, a[0]), toarr(I, a[1])
    if x is None or y is None or k or len(a) > 2:
        return NotImplemented
    nocheck(I, x, y)
    return mean(I, [absol(I, bop(I, '-', p, q))
                    for p, q in zip(x.cells, y.cells)], False)


def nocheck(I, x, y):
    if len(x.cells) != len(y.cells):
        I.throw('ValueError', 'inconsistent numbers of samples')
    if not x.cells:
        I.throw('ValueError', 'Found array with 0 sample(s)')
    if any(isnan(c) for c in x.cells + y.cells):
        I.throw('ValueError', 'Input contains NaN.')


@tm('sklearn.metrics.mean_squared_error')
def _(I, a, k):
    x, y = toarr(I, a[0]), toarr(I, a[1])
    if 'squared' in k:
        I.throw('TypeError', "mean_squared_error() got an unexpected keyword "
                "argument 'squared'")
    if x is None or y is None or k or len(a) > 2:
        return NotImplemented
    nocheck(I, x, y)
    d = [bop(I, '-', p, q) for p, q in zip(x.cells, y.cells)]
    return mean(I, [bop(I, '*', v, v) for v in d], False)


TM['gc.collect'] = lambda I, a, k: 0
TM['sys.stdout.flush'] = lambda I, a, k: None


def update_dict(I, to, src):
    """nilm_metadata.recursively_update_dict"""
    if not isinstance(to, ADict) or not isinstance(src, ADict):
        raise Undecided('recursively_update_dict(%s, %s)' % (
            short(to), short(src)))
    I.event('mutate', obj=to, how='recursively_update_dict')
    for kk, v in list(src.pairs):
        old = I.dict_get(to, kk, Ext('@missing'))
        if isinstance(old, Ext) and old.name == '@missing':
            I.dict_set(to, kk, v)
        elif isinstance(v, ADict):
            update_dict(I, old, v)
        elif isinstance(v, AList) and isinstance(old, AList):
            old.items.extend(v.items)
        else:
            I.dict_set(to, kk, v)


for _n in ('nilm_metadata.recursively_update_dict',
           'nilm_metadata.object_concatenation.recursively_update_dict'):
    TM[_n] = lambda I, a, k: update_dict(I, a[0], a[1])

TM[('attr', 'numpy.nan')] = NAN
TM[('attr', 'numpy.inf')] = float('inf')
TM[('attr', 'numpy.newaxis')] = lambda I: None


import tables2  # noqa: E402,F401  (registers further methods)


def unbound(h, t):
    return lambda I, a, k: h(I, a[0], list(a[1:]), k) \
        if a and isinstance(a[0], t) else NotImplemented


for _t, _n, _hs in ((Series, 'Series', SER), (Frame, 'DataFrame', FRM)):
    for _m, _h in list(COMMON.items()) + list(_hs.items()):
        TM.setdefault('pandas.%s.%s' % (_n, _m), unbound(_h, _t))
