"""Models of Python's builtins and of the standard-library functions the
project uses.  A model is fn(interp, args, kwargs) -> abstract value."""
import functools

from values import (AList, AListSub, ADict, ASet, Ext, AFunc, ABound, Native, AProp,
                    AStatic, AClass, AObj, AGen, Super, Dom, Opq, Val, short,
                    key_of, fresh)

MODELS = {}
METHODS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def method(kind, *names):
    def deco(f):
        for n in names:
            METHODS[(kind, n)] = f
        return f
    return deco


def scalars():
    from interp import SCALAR
    return SCALAR


# ------------------------------------------------------------------ builtins
@model('builtins.len')
def _len(I, a, k):
    return I.length(a[0])


@model('builtins.range')
def _range(I, a, k):
    if all(isinstance(x, int) for x in a):
        return AList(range(*a), tag='range')
    return Opq('call', (Ext('builtins.range'),) + tuple(a), types={'range'})


@model('builtins.enumerate')
def _enumerate(I, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    it = I.iterate(a[0])
    return AGen(((start + i, v) for i, v in enumerate(it)), 'enumerate')


@model('builtins.zip')
def _zip(I, a, k):
    its = [I.iterate(x) for x in a]
    return AGen((tuple(t) for t in zip(*its)), 'zip')


@model('builtins.map')
def _map(I, a, k):
    its = [I.iterate(x) for x in a[1:]]
    return AGen((I.call(a[0], list(t), {}) for t in zip(*its)), 'map')


@model('builtins.filter')
def _filter(I, a, k):
    it = I.iterate(a[1])
    if a[0] is None:
        return AGen((v for v in it if I.truth(v)), 'filter')
    return AGen((v for v in it if I.truth(I.call(a[0], [v], {}))), 'filter')


@model('builtins.reversed')
def _reversed(I, a, k):
    if isinstance(a[0], Opq):
        return NotImplemented
    return AGen(iter(list(I.iterate(a[0]))[::-1]), 'reversed')


@model('builtins.iter')
def _iter(I, a, k):
    if isinstance(a[0], AGen):
        return a[0]
    if isinstance(a[0], AObj) and isinstance(a[0].cls, AClass) and \
            a[0].cls.has('__next__'):
        return a[0]
    return AGen(I.iterate(a[0]), 'iter')


@model('builtins.next')
def _next(I, a, k):
    return I.next(a[0], *a[1:])


@model('builtins.list')
def _list(I, a, k):
    return AList(I.iterate(a[0])) if a else AList()


@model('builtins.tuple')
def _tuple(I, a, k):
    return tuple(I.iterate(a[0])) if a else ()


@model('builtins.set', 'builtins.frozenset')
def _set(I, a, k):
    s = ASet()
    for x in (I.iterate(a[0]) if a else ()):
        I.set_add(s, x)
    return s


@model('builtins.frozenset')
def _fset(I, a, k):
    s = _set(I, a, k)
    s.frozen = True
    return s


@model('builtins.dict', 'collections.OrderedDict')
def _dict(I, a, k):
    d = ADict()
    if a:
        fill(I, d, a[0])
    for kk, v in k.items():
        I.dict_set(d, kk, v)
    return d


def fill(I, d, src):
    if isinstance(src, ADict):
        for kk, v in I.dict_items(src):
            I.dict_set(d, kk, v)
    elif isinstance(src, Dom) and not isinstance(src, Opq) and \
            hasattr(src, 'idx') and hasattr(src, 'vals'):
        for kk, v in zip(src.idx.labels, src.vals):     # a series
            I.dict_set(d, kk, v)
    else:
        for p in I.iterate(src):
            kk, v = list(I.iterate(p)) if not isinstance(p, Opq) else \
                (Opq('item', (p, 0)), Opq('item', (p, 1)))
            I.dict_set(d, kk, v)


@model('collections.defaultdict')
def _defaultdict(I, a, k):
    d = ADict(default=a[0] if a else None)
    if len(a) > 1:
        fill(I, d, a[1])
    return d


@model('collections.Counter')
def _counter(I, a, k):
    d = ADict(default=Native(lambda I, a, k: 0, 'zero'), tag='Counter')
    if a and isinstance(a[0], ADict):
        fill(I, d, a[0])
    elif a:
        for x in I.iterate(a[0]):
            c = I.dict_get(d, x, 0)
            I.dict_set(d, x, I.binop('+', c, 1))
    return d


@model('collections.deque')
def _deque(I, a, k):
    n = a[1] if len(a) > 1 else k.get('maxlen')
    if n is not None and (isinstance(n, bool) or not isinstance(n, int)):
        return NotImplemented
    src = a[0] if a else k.get('iterable')
    q = AList(I.iterate(src) if src is not None else (), tag=('deque', n))
    trim(q)
    return q


def trim(q, left=False):
    """a deque with a maxlen drops what is over, at the other end"""
    if isinstance(q.tag, tuple) and q.tag[0] == 'deque' and \
            q.tag[1] is not None:
        while len(q.items) > q.tag[1]:
            del q.items[-1 if left else 0]


@model('collections.namedtuple')
def _namedtuple(I, a, k):
    name, fields = a[0], a[1]
    if isinstance(fields, str):
        fl = fields.replace(',', ' ').split()
    else:
        fl = list(I.iterate(fields))
    cls = Ext('namedtuple.' + str(name))
    ntc = _NT(name, fl)
    return ntc


class _NT(Ext):
    __slots__ = ('payload',)

    def __init__(self, name, fields):
        Ext.__init__(self, 'namedtuple.%s' % name)
        self.payload = (name, fields)


def call_nt(I, nt, a, k):
    from interp import NTuple
    fl = nt.payload[1]
    vals = list(a)
    if len(vals) > len(fl):
        I.throw('TypeError', 'too many values for namedtuple')
    for f in fl[len(vals):]:
        if f not in k:
            I.throw('TypeError', 'missing ' + f)
        vals.append(k[f])
    for f in k:
        if f not in fl:
            I.throw('TypeError', 'unexpected keyword ' + f)
    r = NTuple(vals)
    r.nt = nt
    return r


def _sort(I, items, key, reverse):
    dec = [(I.call(key, [x], {}) if key is not None else x, x)
           for x in items]

    def cmp(p, q):
        if I.truth(I.compare('<', p[0], q[0])):
            return -1
        if I.truth(I.compare('<', q[0], p[0])):
            return 1
        return 0
    dec.sort(key=functools.cmp_to_key(cmp), reverse=bool(reverse))
    return [x for _, x in dec]


@model('builtins.sorted')
def _sorted(I, a, k):
    if isinstance(a[0], Opq):
        return NotImplemented
    return AList(_sort(I, list(I.iterate(a[0])), k.get('key'),
                       I.truth(k.get('reverse', False))))


def _minmax(op):
    def f(I, a, k):
        if len(a) == 1 and isinstance(a[0], Opq):
            return NotImplemented
        items = list(I.iterate(a[0])) if len(a) == 1 else list(a)
        if not items:
            if 'default' in k:
                return k['default']
            I.throw('ValueError', 'empty sequence')
        key = k.get('key')
        best = items[0]
        kb = I.call(key, [best], {}) if key is not None else best
        for x in items[1:]:
            kx = I.call(key, [x], {}) if key is not None else x
            if I.truth(I.compare(op, kx, kb)):
                best, kb = x, kx
        return best
    return f


MODELS['builtins.min'] = _minmax('<')
MODELS['builtins.max'] = _minmax('>')


@model('builtins.sum')
def _sum(I, a, k):
    if isinstance(a[0], Opq):
        return NotImplemented
    r = a[1] if len(a) > 1 else k.get('start', 0)
    for x in I.iterate(a[0]):
        r = I.binop('+', r, x)
    return r


@model('builtins.any')
def _any(I, a, k):
    if isinstance(a[0], Opq):
        return NotImplemented
    for x in I.iterate(a[0]):
        if I.truth(x):
            return True
    return False


@model('builtins.all')
def _all(I, a, k):
    if isinstance(a[0], Opq):
        return NotImplemented
    for x in I.iterate(a[0]):
        if not I.truth(x):
            return False
    return True


@model('builtins.abs')
def _abs(I, a, k):
    if isinstance(a[0], (int, float)):
        return abs(a[0])
    if isinstance(a[0], Dom):
        h = getattr(a[0], 'd_abs', None)
        if h:
            return h(I)
        h = I.models.get('numpy.abs')
        if h is not None:
            return h(I, a, k)
    return NotImplemented


@model('builtins.round')
def _round(I, a, k):
    if all(isinstance(x, (int, float)) for x in a):
        return round(*a)
    return NotImplemented


@model('builtins.pow')
def _pow(I, a, k):
    return I.binop('**', a[0], a[1])


@model('builtins.divmod')
def _divmod(I, a, k):
    return (I.binop('//', a[0], a[1]), I.binop('%', a[0], a[1]))


@model('builtins.bool')
def _bool(I, a, k):
    return I.truth(a[0]) if a else False


@model('builtins.str')
def _str(I, a, k):
    return I.to_str(a[0]) if a else ''


@model('builtins.repr')
def _repr(I, a, k):
    return I.to_str(a[0], True)


@model('builtins.int')
def _int(I, a, k):
    if not a:
        return 0
    if isinstance(a[0], (int, float, str)):
        try:
            return int(*a)
        except (ValueError, TypeError, OverflowError) as e:
            I.throw(type(e).__name__, str(e))
    if a[0] is None or isinstance(a[0], (AList, ADict, tuple)):
        I.throw('TypeError', 'int() argument')
    if isinstance(a[0], Dom):
        h = getattr(a[0], 'd_int', None)
        if h:
            return h(I)
    return NotImplemented


@model('builtins.float')
def _float(I, a, k):
    if not a:
        return 0.0
    if isinstance(a[0], (int, float, str)):
        try:
            return float(a[0])
        except ValueError as e:
            I.throw('ValueError', str(e))
    if a[0] is None or isinstance(a[0], (AList, ADict, tuple)):
        I.throw('TypeError', 'float() argument')
    if isinstance(a[0], Dom):
        h = getattr(a[0], 'd_float', None)
        if h:
            return h(I)
    return NotImplemented


@model('builtins.print', 'builtins.input', 'warnings.warn',
       'sys.stdout.flush', 'sys.stdout.write', 'warnings.filterwarnings',
       'warnings.simplefilter', 'logging.debug', 'logging.info',
       'logging.warning')
def _print(I, a, k):
    I.event('print', args=tuple(a))
    return None


@model('builtins.id')
def _id(I, a, k):
    return Opq('id', (a[0],))


@model('builtins.hash')
def _hash(I, a, k):
    v = a[0]
    if isinstance(v, AObj) and isinstance(v.cls, AClass):
        f = v.cls.lookup('__hash__')
        if f is not None:
            return I.call(ABound(f, v), [], {})
        if v.cls.has('__hash__') or v.cls.has('__eq__'):
            I.throw('TypeError', 'unhashable')
        return Opq('hash', (v,))
    I.unhashable(v)
    if isinstance(v, tuple):
        return Opq('hash', tuple(_hash(I, [x], {}) for x in v))
    if isinstance(v, ASet):
        return Opq('hashset', tuple(sorted(
            (_hash(I, [x], {}) for x in v.items),
            key=lambda h: repr(key_of(h)))))
    return Opq('hash', (v,))


@model('builtins.callable')
def _callable(I, a, k):
    if isinstance(a[0], (AFunc, ABound, Native, AClass, Ext)):
        return True
    if isinstance(a[0], AObj) and isinstance(a[0].cls, AClass):
        return a[0].cls.has('__call__')
    if isinstance(a[0], Dom):
        return NotImplemented
    return False


@model('builtins.type')
def _type(I, a, k):
    return I.class_of(a[0])


@model('builtins.object')
def _object(I, a, k):
    return AObj(Ext('builtins.object'))


@model('builtins.super')
def _super(I, a, k):
    return Super(a[0], a[1])


@model('builtins.property')
def _property(I, a, k):
    return AProp(*(list(a) + [None] * (2 - len(a)))[:2])


@model('builtins.classmethod')
def _classmethod(I, a, k):
    return AStatic(a[0], 'class')


@model('builtins.staticmethod')
def _staticmethod(I, a, k):
    return AStatic(a[0], 'static')


@model('builtins.hasattr')
def _hasattr(I, a, k):
    o, n = a[0], a[1]
    if isinstance(o, Opq):
        if n in o.attrs:
            return True
        h = o.d_getattr(I, n)
        if h is not NotImplemented:
            return True
        return I.fact(Opq('hasattr', (o, n)))
    miss = object()
    r = I.getattr(o, n, miss)
    if isinstance(r, Opq) and r.op == 'attr' and isinstance(o, Dom):
        h = getattr(o, 'd_hasattr', None)
        if h:
            return h(I, n)
    return r is not miss


@model('builtins.getattr')
def _getattr(I, a, k):
    if not isinstance(a[1], str):
        return NotImplemented
    if len(a) > 2:
        if isinstance(a[0], Opq) and a[1] not in a[0].attrs:
            if not _hasattr(I, a[:2], {}):
                return a[2]
            return I.getattr(a[0], a[1])
        return I.getattr(a[0], a[1], a[2])
    return I.getattr(a[0], a[1])


@model('builtins.setattr')
def _setattr(I, a, k):
    if not isinstance(a[1], str):
        return NotImplemented
    I.setattr(a[0], a[1], a[2])


@model('builtins.delattr')
def _delattr(I, a, k):
    if isinstance(a[0], AObj):
        I.event('delattr', obj=a[0], name=a[1])
        if a[1] not in a[0].fields:
            I.throw('AttributeError', a[1])
        del a[0].fields[a[1]]


@model('builtins.vars')
def _vars(I, a, k):
    return I.getattr(a[0], '__dict__')


@model('builtins.slice')
def _slice(I, a, k):
    from interp import ASlice
    a = list(a)
    if len(a) == 1:
        return ASlice(None, a[0], None)
    return ASlice(*(a + [None] * (3 - len(a))))


NUMERIC = {'builtins.int': (int,), 'builtins.float': (float,),
           'builtins.str': (str,), 'builtins.bytes': (bytes,),
           'builtins.bool': (bool,), 'builtins.complex': (complex,)}


@model('builtins.isinstance')
def _isinstance(I, a, k):
    return isinst(I, a[0], a[1])


def isinst(I, v, c):
    if isinstance(c, (tuple, AList)):
        for x in (c if isinstance(c, tuple) else c.items):
            if I.truth(isinst(I, v, x)):
                return True
        return False
    if isinstance(v, Dom):
        r = v.d_isinstance(I, c)
        if r is not NotImplemented:
            return r
        if isinstance(v, Opq):
            if v.types:
                if isinstance(c, Ext):
                    last = c.name.rsplit('.', 1)[-1]
                    if last in v.types or c.name in v.types:
                        return True
                if isinstance(c, AClass) and c.name in v.types:
                    return True
                return False
            if v.op in ('sym', 'fresh', 'elem', 'item', 'attr', 'call',
                        'mcall') or True:
                kk = ('type', v.d_key())
                known = I.facts.get(kk)
                cn = c.name if isinstance(c, (Ext, AClass)) else repr(c)
                if known is not None:
                    if known == cn:
                        return True
                    if known.startswith('builtins.') and \
                            cn.startswith('builtins.'):
                        return False
                r = I.fact(Opq('isinstance', (v, c)))
                if r:
                    I.facts[kk] = cn
                return r
        return False
    if isinstance(c, Ext):
        n = c.name
        if n == 'builtins.object':
            return True
        if isinstance(v, AObj):
            return I.is_subclass(v.cls, c)
        if n in NUMERIC:
            if n == 'builtins.int' and isinstance(v, bool):
                return True
            return isinstance(v, NUMERIC[n])
        last = n.rsplit('.', 1)[-1]
        if n.startswith('namedtuple.'):
            from interp import NTuple
            return isinstance(v, NTuple) and v.nt.name == n
        kinds = {'list': AList, 'dict': ADict, 'OrderedDict': ADict,
                 'set': ASet, 'tuple': tuple, 'type': (AClass, Ext),
                 'defaultdict': ADict, 'deque': AList}
        if last in kinds and (n.startswith('builtins.') or
                              n.startswith('collections.')):
            return isinstance(v, kinds[last])
        if last in ('Iterable', 'Sequence', 'Collection', 'Mapping',
                    'MutableMapping', 'Sized', 'Iterator', 'Generator'):
            if last in ('Mapping', 'MutableMapping'):
                return isinstance(v, ADict)
            if last in ('Iterator', 'Generator'):
                return isinstance(v, AGen)
            return isinstance(v, (AList, tuple, str, ASet, ADict)) or (
                isinstance(v, AGen) and last == 'Iterable')
        if last in ('Number', 'Real', 'Integral'):
            return isinstance(v, (int, float)) if last != 'Integral' else \
                isinstance(v, int)
        return False
    if isinstance(c, AClass):
        return isinstance(v, (AObj, AListSub)) and I.is_subclass(v.cls, c)
    if isinstance(c, Opq):
        return NotImplemented
    I.throw('TypeError', 'isinstance() arg 2')


@model('builtins.issubclass')
def _issubclass(I, a, k):
    return I.is_subclass(a[0], a[1])


# ------------------------------------------------------------------ copy
@model('copy.deepcopy')
def _deepcopy(I, a, k):
    return I.deepcopy(a[0])


@model('copy.copy')
def _copy(I, a, k):
    return I.copy(a[0])


# ------------------------------------------------------------------ functools
@model('functools.partial')
def _partial(I, a, k):
    f, pre, kw = a[0], list(a[1:]), dict(k)

    def g(I, a2, k2):
        kk = dict(kw)
        kk.update(k2)
        return I.call(f, pre + list(a2), kk)
    return Native(g, 'partial')


@model('functools.wraps')
def _wraps(I, a, k):
    return Native(lambda I, a2, k2: a2[0], 'wraps')


@model('functools.reduce')
def _reduce(I, a, k):
    it = list(I.iterate(a[1]))
    if len(a) > 2:
        r = a[2]
    else:
        if not it:
            I.throw('TypeError', 'reduce() of empty sequence')
        r = it.pop(0)
    for x in it:
        r = I.call(a[0], [r, x], {})
    return r


@model('functools.lru_cache', 'functools.cache')
def _lru(I, a, k):
    if len(a) == 1 and isinstance(a[0], AFunc):
        return a[0]
    return Native(lambda I, a2, k2: a2[0], 'lru_cache')


@model('functools.total_ordering')
def _total(I, a, k):
    a[0].ns['__total_ordering__'] = True
    return a[0]


# ------------------------------------------------------------------ operator
import operator as _op
for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'),
               ('and_', '&'), ('or_', '|')):
    MODELS['operator.' + _n] = (lambda o: lambda I, a, k:
                                I.binop(o, a[0], a[1]))(_o)
for _n, _o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='),
               ('eq', '=='), ('ne', '!=')):
    MODELS['operator.' + _n] = (lambda o: lambda I, a, k:
                                I.compare(o, a[0], a[1]))(_o)


@model('operator.attrgetter')
def _attrgetter(I, a, k):
    names = list(a)

    def g(I, a2, k2):
        vs = []
        for n in names:
            v = a2[0]
            for p in n.split('.'):
                v = I.getattr(v, p)
            vs.append(v)
        return vs[0] if len(vs) == 1 else tuple(vs)
    return Native(g, 'attrgetter')


@model('operator.itemgetter')
def _itemgetter(I, a, k):
    ks = list(a)

    def g(I, a2, k2):
        vs = [I.getitem(a2[0], x) for x in ks]
        return vs[0] if len(vs) == 1 else tuple(vs)
    return Native(g, 'itemgetter')


# ------------------------------------------------------------------ itertools
@model('itertools.chain')
def _chain(I, a, k):
    def g():
        for x in a:
            for v in I.iterate(x):
                yield v
    return AGen(g(), 'chain')


@model('itertools.chain.from_iterable')
def _chainfi(I, a, k):
    def g():
        for x in I.iterate(a[0]):
            for v in I.iterate(x):
                yield v
    return AGen(g(), 'chain')


@model('itertools.islice')
def _islice(I, a, k):
    import itertools
    if all(x is None or isinstance(x, int) for x in a[1:]):
        return AGen(itertools.islice(I.iterate(a[0]), *a[1:]), 'islice')
    return NotImplemented


@model('itertools.count')
def _count(I, a, k):
    import itertools
    return AGen(itertools.count(*a), 'count')


@model('itertools.repeat')
def _repeat(I, a, k):
    import itertools
    return AGen(itertools.repeat(*a), 'repeat')


@model('itertools.product')
def _product(I, a, k):
    import itertools
    return AGen(iter([tuple(t) for t in itertools.product(
        *[list(I.iterate(x)) for x in a])]), 'product')


@model('itertools.combinations')
def _combinations(I, a, k):
    import itertools
    return AGen(iter([tuple(t) for t in itertools.combinations(
        list(I.iterate(a[0])), a[1])]), 'combinations')


@model('itertools.zip_longest')
def _zipl(I, a, k):
    import itertools
    return AGen(iter([tuple(t) for t in itertools.zip_longest(
        *[list(I.iterate(x)) for x in a],
        fillvalue=k.get('fillvalue'))]), 'zip_longest')


@model('itertools.takewhile')
def _takewhile(I, a, k):
    def g():
        for v in I.iterate(a[1]):
            if not I.truth(I.call(a[0], [v], {})):
                return
            yield v
    return AGen(g(), 'takewhile')


# ------------------------------------------------------------------ list
def mut(I, o, how):
    I.event('mutate', obj=o, how=how)


@method('list', 'append')
def _l_append(I, o, a, k):
    mut(I, o, 'append')
    o.items.append(a[0])
    trim(o)


@method('list', 'appendleft')
def _l_appendleft(I, o, a, k):
    mut(I, o, 'append')
    o.items.insert(0, a[0])
    trim(o, True)


@method('list', 'popleft')
def _l_popleft(I, o, a, k):
    mut(I, o, 'pop')
    if not o.items:
        I.throw('IndexError', 'pop from empty list')
    return o.items.pop(0)


@method('list', 'extend')
def _l_extend(I, o, a, k):
    mut(I, o, 'extend')
    o.items.extend(list(I.iterate(a[0])))
    trim(o)


@method('list', 'rotate')
def _l_rotate(I, o, a, k):
    n = a[0] if a else k.get('n', 1)
    if isinstance(n, bool) or not isinstance(n, int):
        return NotImplemented
    mut(I, o, 'rotate')
    if o.items:
        n %= len(o.items)
        o.items[:] = o.items[len(o.items) - n:] + o.items[:len(o.items) - n]


@method('list', 'insert')
def _l_insert(I, o, a, k):
    mut(I, o, 'insert')
    o.items.insert(a[0], a[1])


@method('list', 'pop')
def _l_pop(I, o, a, k):
    mut(I, o, 'pop')
    try:
        return o.items.pop(*a)
    except IndexError:
        I.throw('IndexError', 'pop from empty list')


@method('list', 'remove')
def _l_remove(I, o, a, k):
    mut(I, o, 'remove')
    for i, x in enumerate(o.items):
        if x is a[0] or I.truth(I.compare('==', x, a[0])):
            del o.items[i]
            return
    I.throw('ValueError', 'list.remove(x): x not in list')


@method('list', 'index')
def _l_index(I, o, a, k):
    for i, x in enumerate(o.items):
        if x is a[0] or I.truth(I.compare('==', x, a[0])):
            return i
    I.throw('ValueError', 'not in list')


METHODS[('tuple', 'index')] = lambda I, o, a, k: _l_index(I, AList(o), a, k)


@method('list', 'count')
def _l_count(I, o, a, k):
    return sum(1 for x in o.items if I.truth(I.compare('==', x, a[0])))


METHODS[('tuple', 'count')] = lambda I, o, a, k: _l_count(I, AList(o), a, k)


@method('list', 'sort')
def _l_sort(I, o, a, k):
    mut(I, o, 'sort')
    o.items[:] = _sort(I, list(o.items), k.get('key'),
                       I.truth(k.get('reverse', False)))


@method('list', 'reverse')
def _l_reverse(I, o, a, k):
    mut(I, o, 'reverse')
    o.items.reverse()


@method('list', 'copy')
def _l_copy(I, o, a, k):
    return AList(o.items)


@method('list', 'clear')
def _l_clear(I, o, a, k):
    mut(I, o, 'clear')
    del o.items[:]


# ------------------------------------------------------------------ dict
@method('dict', 'get')
def _d_get(I, o, a, k):
    return I.dict_get(o, a[0], a[1] if len(a) > 1 else k.get('default'))


@method('dict', 'items', 'iteritems')
def _d_items(I, o, a, k):
    return AList([(kk, v) for kk, v in I.dict_items(o)])


@method('dict', 'keys', 'iterkeys')
def _d_keys(I, o, a, k):
    return AList([kk for kk, v in I.dict_items(o)], tag='keys')


@method('dict', 'values', 'itervalues')
def _d_values(I, o, a, k):
    return AList([v for kk, v in I.dict_items(o)])


@method('dict', 'pop')
def _d_pop(I, o, a, k):
    mut(I, o, 'pop')
    miss = object()
    v = I.dict_get(o, a[0], miss)
    if v is miss:
        if len(a) > 1:
            return a[1]
        I.throw('KeyError', a[0])
    I.dict_del(o, a[0])
    return v


@method('dict', 'popitem')
def _d_popitem(I, o, a, k):
    mut(I, o, 'popitem')
    if not o.pairs:
        I.throw('KeyError', 'empty')
    last = k.get('last', True)
    kk, v = o.pairs.pop(-1 if last else 0)
    return (kk, v)


@method('dict', 'most_common', 'elements', 'subtract')
def _d_counter(I, o, a, k):
    if o.tag != 'Counter':
        I.throw('AttributeError', 'dict has no such attribute')
    from interp import Undecided
    raise Undecided('Counter method')


@method('dict', 'most_common')
def _d_most_common(I, o, a, k):
    if o.tag != 'Counter':
        I.throw('AttributeError', 'dict has no such attribute')
    n = a[0] if a else k.get('n')
    out = []
    for kk, v in o.pairs:       # stable, largest first
        j = len(out)
        while j and I.truth(I.compare('<', out[j - 1][1], v)):
            j -= 1
        out.insert(j, (kk, v))
    return AList(out if n is None else out[:n])


@method('dict', 'update')
def _d_update(I, o, a, k):
    mut(I, o, 'update')
    if o.tag == 'Counter':
        if a and isinstance(a[0], ADict) or k:
            from interp import Undecided
            raise Undecided('Counter.update')
        for x in I.iterate(a[0]) if a else ():
            I.dict_set(o, x, I.binop('+', I.dict_get(o, x, 0), 1))
        return
    if a:
        fill(I, o, a[0])
    for kk, v in k.items():
        I.dict_set(o, kk, v)


@method('dict', 'setdefault')
def _d_setdefault(I, o, a, k):
    miss = object()
    v = I.dict_get(o, a[0], miss)
    if v is miss:
        mut(I, o, 'setdefault')
        v = a[1] if len(a) > 1 else None
        I.dict_set(o, a[0], v)
    return v


@method('dict', 'copy')
def _d_copy(I, o, a, k):
    return ADict(I.dict_items(o), o.default)


@method('dict', 'clear')
def _d_clear(I, o, a, k):
    mut(I, o, 'clear')
    del o.pairs[:]


@method('dict', 'has_key')
def _d_haskey(I, o, a, k):
    I.throw('AttributeError', 'has_key')


del METHODS[('dict', 'has_key')]
for _m in ('iteritems', 'iterkeys', 'itervalues'):
    del METHODS[('dict', _m)]


@model('builtins.dict.fromkeys', 'collections.OrderedDict.fromkeys')
def _fromkeys(I, a, k):
    d = ADict()
    for x in I.iterate(a[0]):
        I.dict_set(d, x, a[1] if len(a) > 1 else None)
    return d


# ------------------------------------------------------------------ set
@method('set', 'add')
def _s_add(I, o, a, k):
    mut(I, o, 'add')
    I.set_add(o, a[0])


@method('set', 'remove', )
def _s_remove(I, o, a, k):
    mut(I, o, 'remove')
    for i, x in enumerate(o.items):
        if x is a[0] or I.truth(I.compare('==', x, a[0])):
            del o.items[i]
            return
    I.throw('KeyError', a[0])


@method('set', 'discard')
def _s_discard(I, o, a, k):
    mut(I, o, 'discard')
    for i, x in enumerate(o.items):
        if x is a[0] or I.truth(I.compare('==', x, a[0])):
            del o.items[i]
            return


@method('set', 'pop')
def _s_pop(I, o, a, k):
    mut(I, o, 'pop')
    if not o.items:
        I.throw('KeyError', 'pop from an empty set')
    return o.items.pop()


@method('set', 'update')
def _s_update(I, o, a, k):
    mut(I, o, 'update')
    for src in a:
        for x in I.iterate(src):
            I.set_add(o, x)


@method('set', 'clear')
def _s_clear(I, o, a, k):
    mut(I, o, 'clear')
    del o.items[:]


@method('set', 'copy')
def _s_copy(I, o, a, k):
    return ASet(o.items)


def _as_set(I, v):
    return v if isinstance(v, ASet) else _set(I, [v], {})


for _n, _o in (('union', '|'), ('intersection', '&'), ('difference', '-'),
               ('symmetric_difference', '^')):
    def _mk(o):
        def f(I, s, a, k):
            r = ASet(s.items)
            for x in a:
                r = I.set_op(o, r, _as_set(I, x))
            return r
        return f
    METHODS[('set', _n)] = _mk(_o)


@method('set', 'issubset')
def _s_issubset(I, o, a, k):
    b = _as_set(I, a[0])
    return all(I.truth(I.contains(b, x)) for x in o.items)


@method('set', 'issuperset')
def _s_issuperset(I, o, a, k):
    return all(I.truth(I.contains(o, x)) for x in I.iterate(a[0]))


@method('set', 'isdisjoint')
def _s_isdisjoint(I, o, a, k):
    return not any(I.truth(I.contains(o, x)) for x in I.iterate(a[0]))


# slice attributes are plain values, handled here as zero-arg impossible;
# interp falls back to AttributeError for others.

# ------------------------------------------------------------------ os / path
@model('os.path.join')
def _join(I, a, k):
    import posixpath
    if all(isinstance(x, str) for x in a):
        return posixpath.join(*a)
    if any(x is None for x in a):
        I.throw('TypeError', 'join: expected str')
    parts = []
    for i, x in enumerate(a):
        if i and not (parts and isinstance(parts[-1], str) and
                      parts[-1].endswith('/')):
            parts.append('/')
        parts.append(x)
    return I.strcat(parts)


for _n in ('split', 'splitext', 'basename', 'dirname', 'normpath',
           'isabs'):
    def _mkp(n):
        def f(I, a, k):
            import posixpath
            if isinstance(a[0], str):
                return getattr(posixpath, n)(a[0])
            return NotImplemented
        return f
    MODELS['os.path.' + _n] = _mkp(_n)

MODELS[('attr', 'os.sep')] = '/'
MODELS[('attr', 'os.path.sep')] = '/'
MODELS[('attr', 'posixpath.sep')] = '/'
MODELS[('attr', 'builtins.__debug__')] = True


@model('time.time')
def _time(I, a, k):
    return fresh('time')


@model('warnings.catch_warnings', 'contextlib.suppress0')
def _catch(I, a, k):
    return AObj(Ext('contextlib.nullcontext'), {}, ('null',))


@model('contextlib.closing')
def _closing(I, a, k):
    return AObj(Ext('contextlib.closing'), {}, ('closing', a[0]))


class Globals(Dom):
    """globals(): the names of the module whose function asks"""
    __slots__ = ('mod',)

    def __init__(self, mod):
        self.mod = mod

    def find(self, I, name):
        if not isinstance(name, str):
            from interp import Undecided
            raise Undecided("globals()[%s]" % short(name))
        try:
            return I.module_attr(self.mod.name, name)
        except KeyError:
            pass
        stars = [s for s in self.mod.ns.get('__star__', ())
                 if s not in I.mods]
        if stars:
            from interp import Undecided
            raise Undecided("globals() after import * of %s" % stars[0])
        return _gone

    def d_getitem(self, I, key):
        v = self.find(I, key)
        if v is _gone:
            I.throw('KeyError', key)
        return v

    def d_contains(self, I, key):
        return self.find(I, key) is not _gone

    def d_getattr(self, I, name):
        if name == 'get':
            def get(I, a, k):
                v = self.find(I, a[0])
                return v if v is not _gone else (
                    a[1] if len(a) > 1 else None)
            return Native(get, name)
        return NotImplemented


_gone = object()


@model('builtins.globals')
def _globals(I, a, k):
    if a or k:
        return NotImplemented
    return Globals(I.stack[-1].mod)
