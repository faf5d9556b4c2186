"""C12  Asking an ElecMeter for measurements: vocabulary, column selection,
the loading pipeline, wiring to the upstream meter, matching and identity."""
import itertools
from fractions import Fraction
from .tablecommon import *
from .c11 import FakeCache, FakeStore, tfr

EXPLANATION = (
    'ElecMeter and the measurement vocabulary are interpreted over the '
    'abstract domain for every combination of a set of recorded measurements '
    'and a request; the columns chosen, the errors, the pipeline handed to '
    'the DataStore and the effects on the arguments are compared with the '
    'documented rules.')
ASSUMPTIONS = [
    'device metadata follows the NILM Metadata schema (measurements with '
    'physical_quantity and, for power and energy, type)',
    'the DataStore is replaced by a recording stand-in with the documented '
    'load interface']
MIN_OBLIGATIONS = 1500
LOC = 'nilmtk/elecmeter.py'
ORDER = ('active', 'apparent', 'reactive')
UNI = [('power', 'active'), ('power', 'apparent'), ('power', 'reactive'),
       ('energy', 'active'), ('cumulative energy', 'reactive'),
       ('voltage', '')]
TYPED = ('power', 'energy', 'cumulative energy')


def run(ctx):
    I = ctx.interp(models=dict(TM))
    ctx.anchor(I, 'nilmtk.elecmeter.ElecMeter')
    vocabulary(ctx, I)
    columns(ctx, I)
    available(ctx, I)
    pipeline(ctx, I)
    isolation(ctx, I)
    upstream(ctx, I)
    matching(ctx, I)
    identity(ctx, I)
    appliances(ctx, I)
    ctx.absorb(I)


def name(v):
    return 'raises ' + exc_name(v)


# -------------------------------------------------------------- vocabulary
def vocabulary(ctx, I):
    M = 'nilmtk/measurement.py'
    best = ctx.anchor(I, 'nilmtk.measurement.select_best_ac_type')
    C = 'select_best_ac_type'
    sets = [list(s) for n in range(4)
            for s in itertools.permutations(ORDER, n)]
    for av in sets + [['active', 'odd'], ['odd']]:
        for mains in [None] + sets:
            def go():
                return I.call(best, [aval(av)] + (
                    [] if mains is None else [aval(mains)]), {})
            ok = [t for t in ORDER if t in av]
            pref = [t for t in ok if mains is None or t in mains]
            want = (pref or ok or [None])[0]
            for out, v, tr in each(ctx, I, C, go):
                if want is None:
                    ctx.expect(out == 'raise' and exc_name(v) == 'KeyError',
                               'best-type-none', C, 'available %s, mains %s: '
                               '%s' % (av, mains, v if out == 'return' else
                                       name(v)), M)
                else:
                    ctx.expect(out == 'return' and v == want, 'best-type', C,
                               'available %s, mains %s: %s, expected %s' % (
                                   av, mains, v if out == 'return' else
                                   name(v), want), M)
    mc = ctx.anchor(I, 'nilmtk.measurement.measurement_columns')
    C = 'measurement_columns'
    qs = ['power', 'energy', 'cumulative energy', 'voltage', 'current',
          'frequency', 'power factor', 'pf', 'state', 'phase angle', 'powr']
    for q in qs:
        for t in ORDER + ('', 'activ'):
            def go():
                return I.call(mc, [AList([('power', 'active'), (q, t)])], {})
            good = q != 'powr' and (q not in TYPED or t in ORDER)
            for out, v, tr in each(ctx, I, C, go):
                if not good:
                    ctx.expect(out == 'raise' and exc_name(v) ==
                               'MeasurementError', 'vocabulary', C,
                               '(%r, %r) is accepted' % (q, t), M)
                    continue
                ctx.expect(out == 'return' and isinstance(v, Idx) and
                           list(v.labels) == [('power', 'active'), (q, t)]
                           and list(v.names) == ['physical_quantity',
                                                 'type'],
                           'vocabulary', C, '(%r, %r): %s' % (
                               q, t, short(v) if out == 'return' else
                               name(v)), M)
    for fn, good, bad in (
            ('check_ac_type', ORDER, ('', 'Active', 'activ', None)),
            ('check_physical_quantity', qs[:-1],
             ('', 'powr', 'Power', 'active', None))):
        f = ctx.anchor(I, 'nilmtk.measurement.' + fn)
        for x in good + type(good)(bad):
            for out, v, tr in each(ctx, I, fn, lambda: I.call(f, [x], {})):
                ctx.expect((out == 'return') if x in good else (
                    out == 'raise' and exc_name(v) == 'MeasurementError'),
                    'vocabulary', fn, '%r: %s' % (
                        x, out if out == 'return' else name(v)), M)


# ------------------------------------------------------------------ columns
def device(cols, **more):
    ms = []
    for q, t in cols:
        m = {'physical_quantity': q}
        if t:
            m['type'] = t
        ms.append(m)
    d = {'model': 'dev', 'sample_period': 10, 'max_sample_period': 25,
         'measurements': ms}
    d.update(more)
    return d


def meter(I, cols, store='fake', meta=None, mid=(1, 1, 'D'), dev=None):
    cls = I.get('nilmtk.elecmeter.ElecMeter')
    I.setattr(cls, 'meter_devices', aval({'dev': dev or device(cols)}))
    md = {'device_model': 'dev', 'data_location': '/building1/elec/meter1'}
    md.update(meta or {})
    m = I.call(cls, [Store() if store == 'fake' else store, aval(md)], {})
    if mid is not None:
        I.setattr(m, 'identifier', ident(I, *mid))
    I.setattr(m, 'cache', FakeCache())
    return m


def ident(I, *a):
    return I.call(I.get('nilmtk.elecmeter.ElecMeterID'), list(a), {})


class Store(Dom):
    """records what is asked of the DataStore; one chunk"""
    __slots__ = ('frame',)

    def __init__(self, frame=None):
        self.frame = frame

    def d_truth(self, I):
        return True

    def d_deepcopy(self, I, memo):
        return self

    def d_getattr(self, I, nm):
        if nm == 'load':
            def load(I, a, k):
                I.event('store-load', args=list(a), kw=dict(k))

                def gen():
                    if self.frame is not None:
                        yield self.frame
                return AGen(gen())
            return Native(load, nm)
        if nm == 'get_timeframe':
            def gt(I, a, k):
                I.event('store-timeframe', args=list(a), kw=dict(k))
                return tfr(I, 0, 100)
            return Native(gt, nm)
        return NotImplemented


def as_set(v):
    if isinstance(v, (list, tuple)) and not (
            isinstance(v, tuple) and v and isinstance(v[0], str)):
        return v
    return [v]


def spec(cols, pq, ac):
    """(set of acceptable answers) or exception name"""
    if not pq and not ac:
        return [frozenset(cols)]
    if ac == 'best':
        q = as_set(pq) if pq else sorted({c[0] for c in cols})
        out = set()
        for x in q:
            t = [y for y in ORDER if (x, y) in cols]
            if t:
                out.add((x, t[0]))
        if not out:
            return 'MeasurementError'
        return [frozenset(out)] + [
            frozenset(out | {c for c in cols if c[1] == '' and
                             c[0] in q})]
    sel = set(cols)
    bad = []
    if ac:
        a = as_set(ac)
        sel = {c for c in sel if c[1] in a}
        bad += [x for x in a if x not in ORDER]
        if not any(c[1] in a for c in cols):
            return 'MeasurementError'
    if pq:
        q = as_set(pq)
        bad += [x for x in q if x not in ('power', 'energy', 'voltage',
                                          'cumulative energy', 'current')]
        sel = {c for c in sel if c[0] in q}
    if bad or not sel:
        return 'MeasurementError'
    return [frozenset(sel)]


PQS = [None, 'power', 'energy', 'cumulative energy', 'voltage', 'current',
       'nonsense', ['power', 'energy'], ['voltage', 'current'],
       ['power', 'voltage'], ['current']]
ACS = [None, 'active', 'apparent', 'reactive', 'best', 'nonsense',
       ['active', 'apparent'], ['apparent', 'reactive'], ['reactive'],
       ['reactive', 'reactive']]


def ask(I, m, **kw):
    return I.call(I.getattr(m, '_convert_physical_quantity_and_ac_type_to_'
                            'cols'), [], {k: aval(v) for k, v in kw.items()})


def loads(I, m, **kw):
    """what meter.load(**kw) asks of the store"""
    n = len(I.trace)
    g = I.call(I.getattr(m, 'load'), [], {k: aval(v) for k, v in kw.items()})
    for _ in I.iterate(g):
        pass
    ev = [e for e in I.trace[n:] if e.kind == 'store-load']
    if len(ev) != 1:
        raise Unk('%d loads' % len(ev))
    e = ev[0].data
    k = dict(e['kw'])
    key = e['args'][0] if e['args'] else k.pop('key', None)
    cols = k.pop('columns', None)
    return key, (None if cols is None else pyval(cols)), k


def columns(ctx, I):
    C = 'ElecMeter.load'
    combos = [list(c) for n in (1, 2, 3, 6)
              for c in itertools.combinations(UNI, n)]
    if ctx.tier == 'thorough':
        combos = [list(c) for n in range(1, 7)
                  for c in itertools.combinations(UNI, n)]
    for cols in combos:
        for pq in PQS:
            for ac in ACS:
                want = spec(cols, pq, ac)

                def go():
                    m = meter(I, cols)
                    kw = {}
                    if pq is not None:
                        kw['physical_quantity'] = pq
                    if ac is not None:
                        kw['ac_type'] = ac
                    return loads(I, m, **kw)
                what = 'records %s, asked for physical_quantity=%s, ' \
                    'ac_type=%s' % (cols, pq, ac)
                for out, v, tr in each(ctx, I, C, go):
                    if isinstance(want, str):
                        ctx.expect(out == 'raise' and exc_name(v) == want,
                                   'unavailable-refused', C, '%s: %s' % (
                                       what, v[1] if out == 'return' else
                                       name(v)), LOC)
                        continue
                    if out == 'raise':
                        ctx.violation('columns', C, '%s: %s' % (
                            what, name(v)), LOC)
                        continue
                    key, got, rest = v
                    ctx.expect(key == '/building1/elec/meter1', 'location',
                               C, '%s: loads %s' % (what, key), LOC)
                    if got is None and set(want[0]) == set(cols):
                        got = list(cols)
                    ctx.expect(got is not None and len(set(got)) == len(got)
                               and frozenset(got) in want, 'columns', C,
                               '%s: loads %s, expected %s' % (
                                   what, got, sorted(want[0])), LOC)
                    ctx.expect(not rest, 'arguments-passed', C,
                               '%s: the store is also given %s' % (
                                   what, sorted(rest)), LOC)
    # explicit columns
    for cols in ([UNI[0]], UNI[:2], UNI[:3] + UNI[5:], UNI):
        for sel in [[c] for c in UNI] + [UNI[:2], UNI[1:3], UNI[4:]]:
            for extra in ({}, {'ac_type': 'active'},
                          {'physical_quantity': 'power'},
                          {'ac_type': 'best', 'physical_quantity': 'power'}):
                def go():
                    return loads(I, meter(I, cols), columns=sel, **extra)
                what = 'records %s, asked for columns %s and %s' % (
                    cols, sel, extra)
                for out, v, tr in each(ctx, I, C, go):
                    if extra:
                        ctx.expect(out == 'raise' and exc_name(v) in (
                            'ValueError',), 'columns-exclusive', C,
                            '%s: %s' % (what, v[1] if out == 'return' else
                                        name(v)), LOC)
                    elif not set(sel) <= set(cols):
                        ctx.expect(out == 'raise' and exc_name(v) ==
                                   'MeasurementError', 'unavailable-refused',
                                   C, '%s: %s' % (
                                       what, v[1] if out == 'return' else
                                       name(v)), LOC)
                    else:
                        ctx.expect(out == 'return' and sorted(v[1]) ==
                                   sorted(sel), 'columns', C, '%s: %s' % (
                                       what, v[1] if out == 'return' else
                                       name(v)), LOC)
    # everything else goes through to the store
    def go():
        return loads(I, meter(I, UNI), physical_quantity='power',
                     chunksize=7, n_look_ahead_rows=3, verbose=False)
    for out, v, tr in each(ctx, I, C, go):
        if out == 'raise':
            ctx.violation('arguments-passed', C, name(v), LOC)
            continue
        rest = {k: x for k, x in v[2].items() if k != 'verbose'}
        ctx.expect(rest == {'chunksize': 7, 'n_look_ahead_rows': 3},
                   'arguments-passed', C, 'load(chunksize=7, '
                   'n_look_ahead_rows=3) gives the store %s' % rest, LOC)
    for out, v, tr in each(ctx, I, C, lambda: loads(I, meter(
            I, UNI, store=None))):
        ctx.expect(out == 'raise' and exc_name(v) == 'RuntimeError',
                   'no-store', C, 'a meter without a store: %s' % (
                       'loads' if out == 'return' else name(v)), LOC)


def available(ctx, I):
    combos = [list(c) for n in (0, 1, 2, 3, 6)
              for c in itertools.combinations(UNI, n)]
    for cols in combos:
        def go():
            m = meter(I, cols)
            return [pyval(I.call(I.getattr(m, 'available_' + f), a, {}))
                    for f, a in (('columns', []),
                                 ('physical_quantities', []),
                                 ('ac_types', ['power']),
                                 ('ac_types', ['voltage']),
                                 ('ac_types', [AList(['power', 'energy',
                                                      'voltage'])]))]
        C = 'ElecMeter.available_columns'
        for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                ctx.violation('available', C, 'records %s: %s' % (
                    cols, name(v)), LOC)
                continue
            want = [cols, {c[0] for c in cols},
                    {c[1] for c in cols if c[0] == 'power'}, [],
                    {c[1] for c in cols if c[0] in ('power', 'energy')}]
            for g, w, f in zip(v, want, ('columns', 'physical_quantities',
                                         'ac_types', 'ac_types',
                                         'ac_types')):
                ctx.expect(sorted(g) == sorted(w), 'available',
                           'ElecMeter.available_' + f, 'records %s: %s, '
                           'expected %s' % (cols, g, sorted(w)), LOC)
    C = 'ElecMeter.available_ac_types'
    for out, v, tr in each(ctx, I, C, lambda: I.call(I.getattr(
            meter(I, UNI), 'available_ac_types'), ['powr'], {})):
        ctx.expect(out == 'raise' and exc_name(v) in (
            'ValueError', 'MeasurementError'), 'vocabulary', C,
            'an unknown physical quantity is accepted', LOC)


# ----------------------------------------------------------------- pipeline
class Resampled(Dom):
    """a chunk: what has been done to it, in order"""
    __slots__ = ('steps', 'attrs')

    def __init__(self, steps=(), attrs=None):
        self.steps, self.attrs = tuple(steps), attrs or {}

    def d_truth(self, I):
        return True

    def d_getattr(self, I, nm):
        if nm == 'empty':
            return False
        if nm in self.attrs:
            return self.attrs[nm]
        if nm == 'look_ahead':
            I.throw('AttributeError', nm)
        if nm == 'index':
            return NoDup(self)
        if nm == 'loc':
            return Loc(self)
        if nm == 'tz_convert':
            def tz(I, a, k):
                z = a[0] if a else k.get('tz')
                if not isinstance(z, str) and 'utc' in short(z).lower():
                    z = 'UTC'
                if z == self.zone():
                    return self
                at = dict(self.attrs)
                at['_zone'] = z
                return Resampled(self.steps + (('zone', z),), at)
            return Native(tz, nm)
        if nm == 'resample':
            def rs(I, a, k):
                if set(k) - {'rule'} or len(a) + len(k) != 1:
                    raise Undecided('resample %s' % sorted(k))
                rule = a[0] if a else k['rule']
                if not isinstance(rule, str):
                    raise Undecided('rule %s' % short(rule))
                if self.attrs.get('_ambiguous') and self.zone() != 'UTC':
                    I.throw('pytz.exceptions.AmbiguousTimeError', 'midnight')
                return Part(self, (rule.lower().rstrip('s'),))
            return Native(rs, nm)
        return NotImplemented

    def zone(self):
        return self.attrs.get('_zone', 'Zone/Own')

    def d_getitem(self, I, k):
        if isinstance(k, NoDup):
            if not self.attrs.get('_twice'):
                return self
            if k.keep is None or k.of.attrs is not self.attrs:
                raise Undecided('a mask of another chunk')
            at = dict(self.attrs)
            if k.inv:
                at.pop('_twice')
            return Resampled(self.steps + ((
                'keep' if k.inv else 'drop', k.keep),), at)
        raise Undecided('chunk[%s]' % short(k))

    def d_setattr(self, I, nm, v):
        self.attrs[nm] = v


class Loc(Dom):
    __slots__ = ('of',)

    def __init__(self, of):
        self.of = of

    def d_getitem(self, I, k):
        return self.of.d_getitem(I, k)


class NoDup(Dom):
    """index, its mask of repeated instants, and the inverse"""
    __slots__ = ('of', 'keep', 'inv')

    def __init__(self, of, keep=None, inv=False):
        self.of, self.keep, self.inv = of, keep, inv

    def d_truth(self, I):
        return False

    def d_unop(self, I, op):
        return NoDup(self.of, self.keep, not self.inv)

    def d_getattr(self, I, nm):
        twice = bool(self.of.attrs.get('_twice'))
        if nm == 'duplicated':
            def dup(I, a, k):
                return NoDup(self.of, str(a[0] if a else k.get(
                    'keep', 'first')))
            return Native(dup, nm)
        if nm == 'any':
            return Native(lambda I, a, k: twice or self.inv, nm)
        if nm == 'sum' and not self.inv:
            return Native(lambda I, a, k: int(twice), nm)
        if nm == 'is_unique':
            return not twice
        if nm == 'has_duplicates':
            return twice
        if nm in ('tz', 'tzinfo') and self.keep is None:
            return self.of.zone()
        return NotImplemented


class Part(Dom):
    """a chunk being resampled: the rule, then how, then the filling"""
    __slots__ = ('of', 'did')

    def __init__(self, of, did):
        self.of, self.did = of, did

    def d_truth(self, I):
        return True

    def d_setattr(self, I, nm, v):
        self.done().attrs[nm] = v

    def done(self):
        d = self.did + (None, None, None)
        return Resampled(self.of.steps + (('resample',) + d[:4],),
                         dict(self.of.attrs))

    def d_getattr(self, I, nm):
        def call(I, a, k):
            if len(self.did) == 1:
                if a or k:
                    raise Undecided('%s with arguments' % nm)
                return Part(self.of, self.did + (nm,))
            lim = k.get('limit', a[0] if a else None)
            return Part(self.of, self.did + (nm, lim)).done()
        if nm in ('mean', 'max', 'min', 'sum', 'ffill', 'bfill', 'first'):
            return Native(call, nm)
        if len(self.did) > 1:
            return I.getattr(self.done(), nm)
        return NotImplemented


def step(I, tag):
    """Apply node which adds a tag to each chunk"""
    def f(I, a, k):
        I.event('apply', tag=tag)
        return Resampled(a[0].steps + (tag,), dict(a[0].attrs))
    return I.call(I.get('nilmtk.preprocessing.apply.Apply'), [],
                  {'func': Native(f, tag)})


def steps(c):
    if isinstance(c, Part):
        c = c.done()
    if not isinstance(c, Resampled):
        raise Unk('chunk %s' % short(c))
    return c.steps


def pipeline(ctx, I0):
    C = 'ElecMeter.load'
    I = I0

    def load(kw, tags, dev=None, twice=False, given=None):
        chunk = Resampled(('raw',), dict(given or {},
                                         timeframe=tfr(I, 0, 100)))
        m = meter(I, UNI[:1], store=Store(chunk), dev=dev)
        k = {x: aval(y) for x, y in kw.items()}
        if tags is not None:
            k['preprocessing'] = AList([step(I, t) for t in tags])
        before = {x: key_of(y) for x, y in k.items()
                  if x != 'preprocessing'}
        outs = []
        for i in range(2 if twice else 1):
            g = I.call(I.getattr(m, 'load'), [], dict(k))
            outs.append([steps(c) for c in I.iterate(g)])
        n = len(k['preprocessing'].items) if tags is not None else 0
        same = {x: key_of(y) for x, y in k.items()
                if x != 'preprocessing'} == before and n == len(tags or [])
        return outs, same

    def rs(period, limit, fill_method='ffill', how='mean'):
        return ('resample', str(period), how, fill_method, limit)
    def same_step(g, w):
        return g == w
    dev2 = device(UNI[:1], sample_period=6, max_sample_period=60)
    cases = [
        ({}, None, None, []),
        ({}, [], None, []),
        ({}, ['a'], None, ['a']),
        ({}, ['a', 'b', 'c'], None, ['a', 'b', 'c']),
        ({'sample_period': 60}, None, None, [rs(60, 1)]),
        ({'sample_period': 5}, None, None, [rs(5, 5)]),
        ({'sample_period': 60}, None, dev2, [rs(60, 1)]),
        ({'sample_period': 7}, ['a', 'b'], dev2, ['a', 'b', rs(7, 9)]),
        ({'resample': True}, None, None, [rs(10, 3)]),
        ({'resample': True}, ['a'], dev2, ['a', rs(6, 10)]),
        ({'resample': True, 'sample_period': 30}, None, dev2, [rs(30, 2)]),
        ({'resample': False, 'sample_period': 30}, None, None, []),
        ({'sample_period': None}, None, None, []),
        ({'resample': True, 'sample_period': None}, None, None,
         [rs(10, 3)]),
        ({'sample_period': 60, 'resample_kwargs': {'fill_method': 'bfill'}},
         None, None, [rs(60, 1, fill_method='bfill')]),
        ({'sample_period': 60, 'resample_kwargs': {'limit': 4,
                                                   'how': 'max'}},
         ['a'], None, ['a', rs(60, 4, how='max')]),
        ({'resample': True, 'resample_kwargs': {}}, ['a'], dev2,
         ['a', rs(6, 10)])]
    odd = ({'_twice': True}, [('keep', 'first')], []), \
        ({'_ambiguous': True}, [('zone', 'UTC')], [('zone', 'Zone/Own')]), \
        ({'_ambiguous': True, '_twice': True},
         [('keep', 'first'), ('zone', 'UTC')], [('zone', 'Zone/Own')])
    cases = [c + ({},) for c in cases] + [
        ({'sample_period': 60}, tags, dev2,
         (tags or []) + pre + [rs(60, 1)] + post, marks)
        for marks, pre, post in odd for tags in (None, ['a'])] + [
        ({}, ['a'], dev2, ['a'], marks) for marks, pre, post in odd]
    for kw, tags, dev, want, marks in cases:
        for twice in (False, True):
            def go():
                return load(kw, tags, dev, twice, marks)
            what = 'load(%s), preprocessing %s%s' % (
                kw, tags, ', '.join([''] + [
                    {'_twice': 'readings with repeated instants',
                     '_ambiguous': 'in a zone whose midnight is ambiguous'
                     }[x] for x in marks]))
            for out, v, tr in each(ctx, I, C, go):
                if out == 'raise':
                    ctx.violation('pipeline', C, '%s: %s' % (what, name(v)),
                                  LOC)
                    continue
                outs, same = v
                for i, got in enumerate(outs):
                    w = ['raw'] + want
                    ctx.expect(len(got) == 1 and len(got[0]) == len(w) and
                               all(map(same_step, got[0], w)), 'pipeline', C,
                               '%s%s: the readings go through %s, expected '
                               '%s' % (what, ', for the second time' if i
                                       else '', got, w), LOC)
                ctx.expect(same, 'arguments-unchanged', C, '%s alters the '
                           'arguments of its caller' % what, LOC)


def isolation(ctx, I):
    C = 'ElecMeter.device'

    def go():
        m = meter(I, UNI[:2])
        d = I.getattr(m, 'device')
        I.setitem(d, 'sample_period', 99)
        ms = I.getitem(d, 'measurements')
        I.call(I.getattr(ms, 'pop'), [], {})
        n = meter0(I)
        return (I.call(I.getattr(m, 'sample_period'), [], {}),
                len(list(I.iterate(I.call(I.getattr(
                    n, 'available_columns'), [], {})))))

    def meter0(I):
        cls = I.get('nilmtk.elecmeter.ElecMeter')
        return I.call(cls, [Store(), aval({'device_model': 'dev'})], {})
    for out, v, tr in each(ctx, I, C, go):
        ctx.expect(out == 'return' and v == (10, 2), 'device-isolated', C,
                   'changing what one meter reports about its device '
                   'changes the device of the others (%s)' % (
                       v if out == 'return' else name(v),), LOC)
    C = 'ElecMeter.load'

    def go():
        m = meter(I, UNI[:2])
        for _ in I.iterate(I.call(I.getattr(m, 'load'), [], {})):
            pass
        for md in (I.getattr(m, 'metadata'),
                   I.call(I.getattr(m, 'get_metadata'), [], {})):
            try:
                d = I.getitem(md, 'device')
            except AbstractRaise:
                continue
            I.setitem(d, 'sample_period', 99)
        return I.call(I.getattr(meter0(I), 'sample_period'), [], {})
    for out, v, tr in each(ctx, I, C, go):
        ctx.expect(out == 'return' and v == 10, 'device-isolated', C,
                   'changing the device in the metadata of a meter which has '
                   'been loaded changes the device of the others (%s)' % (
                       v if out == 'return' else name(v),), LOC)
    C = 'ElecMeter.metadata'

    def go():
        cls = I.get('nilmtk.elecmeter.ElecMeter')
        a, b = I.call(cls, [], {}), I.call(cls, [], {})
        I.setattr(a, 'name', 'x')
        I.call(I.getattr(I.getattr(a, 'appliances'), 'append'), [1], {})
        return I.getattr(b, 'name'), len(list(I.iterate(I.getattr(
            b, 'appliances'))))
    for out, v, tr in each(ctx, I, C, go):
        ctx.expect(out == 'return' and v == (None, 0), 'meters-isolated', C,
                   'two meters made without metadata share it (%s)' % (
                       v if out == 'return' else name(v),), LOC)
    # loading the devices of a second data set keeps those of the first
    C = 'ElecMeter.load_meter_devices'

    def go():
        cls = I.get('nilmtk.elecmeter.ElecMeter')
        I.setattr(cls, 'meter_devices', aval({}))
        for d in ({'a': {'sample_period': 1}}, {'b': {'sample_period': 2}},
                  None):
            I.call(I.getattr(cls, 'load_meter_devices'), [Meta(
                {'meter_devices': d} if d else {})], {})
        return pyval(I.getattr(cls, 'meter_devices'))
    for out, v, tr in each(ctx, I, C, go):
        ctx.expect(out == 'return' and v == {
            'a': {'sample_period': 1}, 'b': {'sample_period': 2}},
            'devices-loaded', C, 'after loading devices a and b: %s' % (
                v if out == 'return' else name(v),), LOC)


class Meta(Dom):
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def d_truth(self, I):
        return True

    def d_getattr(self, I, nm):
        if nm == 'load_metadata':
            return Native(lambda I, a, k: aval(self.m), nm)
        return NotImplemented


# ----------------------------------------------------------------- upstream
def fresh(I):
    """forget the meters registered on an earlier path"""
    mg = I.getattr(I.get('nilmtk'), 'global_meter_group')
    I.setattr(mg, 'meters', AList([]))
    return mg


def upstream(ctx, I):
    C = 'ElecMeter.upstream_meter'
    cls = I.get('nilmtk.elecmeter.ElecMeter')

    def world():
        out = {}
        for i, b, d, meta in (
                (1, 1, 'D', {'site_meter': True}),
                (2, 1, 'D', {'submeter_of': 1}),
                (3, 1, 'D', {'submeter_of': 2}),
                (1, 2, 'D', {'site_meter': True}),
                (2, 2, 'D', {'submeter_of': 1}),
                (1, 1, 'E', {'site_meter': True}),
                (2, 1, 'E', {'submeter_of': 1,
                             'upstream_meter_in_building': 1}),
                (3, 1, 'E', {}),
                (4, 1, 'E', {'submeter_of': -1}),
                (5, 1, 'E', {'submeter_of': 1,
                             'upstream_meter_in_building': 2}),
                (6, 1, 'E', {'submeter_of': 1, 'site_meter': False}),
                (7, 1, 'E', {'submeter_of': 0})):
            out[i, b, d] = I.call(cls, [None, aval(meta),
                                        ident(I, i, b, d)], {})
        return out
    want = {(1, 1, 'D'): None, (2, 1, 'D'): (1, 1, 'D'),
            (3, 1, 'D'): (2, 1, 'D'), (1, 2, 'D'): None,
            (2, 2, 'D'): (1, 2, 'D'), (1, 1, 'E'): None,
            (2, 1, 'E'): (1, 1, 'E'), (3, 1, 'E'): 'ValueError',
            (4, 1, 'E'): 'ValueError', (5, 1, 'E'): 'NotImplementedError',
            (6, 1, 'E'): (1, 1, 'E'), (7, 1, 'E'): (1, 1, 'E')}
    for k, w in want.items():
        def go():
            fresh(I)
            ms = world()
            u = I.call(I.getattr(ms[k], 'upstream_meter'), [], {})
            for q, m in ms.items():
                if m is u:
                    return q
            return u
        for out, v, tr in each(ctx, I, C, go):
            got = v if out == 'return' else exc_name(v)
            ctx.expect(got == w, 'upstream', C, 'meter %s: %s, expected %s'
                       % (k, got if isinstance(got, (tuple, str)) else
                          short(got), w), LOC)


# ----------------------------------------------------------------- matching
def matching(ctx, I):
    C = 'ElecMeter.matches'
    dev = device(UNI[:1], wireless=True, tags=['x', 'y'])
    meta = {'site_meter': True, 'room': 'kitchen', 'n': 0}
    atoms = [
        ('instance', 1, True), ('instance', 2, False),
        ('building', 1, True), ('building', 2, False),
        ('dataset', 'D', True), ('dataset', 'E', False),
        ('room', 'kitchen', True), ('room', 'hall', False),
        ('site_meter', True, True), ('site_meter', False, False),
        ('n', 0, True), ('n', 1, False),
        ('sample_period', 10, True), ('sample_period', 6, False),
        ('wireless', True, True), ('wireless', False, False),
        ('tags', 'x', True), ('tags', 'z', False),
        ('tags', ['x', 'y'], True), ('tags', ['x'], False),
        ('nonsense', 1, None)]

    def want(key):
        ks = [b for _, _, b in key]
        return None if None in ks else all(ks)
    reqs = [()] + [(a,) for a in atoms] + [
        (a, b) for a in atoms for b in atoms if a[0] != b[0]]
    for r in reqs:
        def go():
            m = meter(I, UNI[:1], meta=meta, dev=dev)
            return I.call(I.getattr(m, 'matches'), [ADict(
                [(k, aval(v)) for k, v, _ in r])], {})
        w = want(r)
        for out, v, tr in each(ctx, I, C, go):
            what = {k: x for k, x, _ in r}
            if w is None:
                # an unknown key is an error, unless another key already
                # decided
                ctx.expect(out == 'raise' and exc_name(v) == 'KeyError' or
                           out == 'return' and v is False and
                           False in [b for _, _, b in r], 'matches', C,
                           '%s: %s' % (what, v if out == 'return' else
                                       name(v)), LOC)
                continue
            ctx.expect(out == 'return' and v is w, 'matches', C,
                       '%s: %s, expected %s' % (
                           what, v if out == 'return' else name(v), w), LOC)
    for bad in (5, 'fridge', AList(['a'])):
        for out, v, tr in each(ctx, I, C, lambda: I.call(I.getattr(
                meter(I, UNI[:1]), 'matches'), [bad], {})):
            ctx.expect(out == 'raise' and exc_name(v) == 'TypeError',
                       'matches', C, 'a key which is no dict is accepted',
                       LOC)


# ----------------------------------------------------------------- identity
def identity(ctx, I):
    C = 'ElecMeter.__init__'
    cls = I.get('nilmtk.elecmeter.ElecMeter')
    ids = [(1, 1, 'D'), (2, 1, 'D'), (1, 2, 'D'), (1, 1, 'E'),
           ((1, 2), 1, 'D')]

    def go():
        fresh(I)
        a = [I.call(cls, [None, None, ident(I, *x)], {}) for x in ids]
        b = [I.call(cls, [None, None, ident(I, *x)], {}) for x in ids]
        eq = [[I.truth(I.call(I.getattr(x, '__eq__'), [y], {}))
               for y in b] for x in a]
        ne = [[I.truth(I.call(I.getattr(x, '__ne__'), [y], {}))
               for y in b] for x in a]
        h = [key_of(I.call(I.getattr(x, '__hash__'), [], {})) for x in a]
        g = [key_of(I.call(I.getattr(x, '__hash__'), [], {})) for x in b]
        other = I.truth(I.call(I.getattr(a[0], '__eq__'), ['x'], {}))
        n = len(list(I.iterate(I.getattr(I.getattr(
            I.get('nilmtk'), 'global_meter_group'), 'meters'))))
        return eq, ne, h, g, other, n
    for out, v, tr in each(ctx, I, C, go):
        if out == 'raise':
            ctx.violation('identity', C, name(v), LOC)
            continue
        eq, ne, h, g, other, n = v
        k = len(ids)
        ctx.expect(all(eq[i][j] is (i == j) for i in range(k)
                       for j in range(k)), 'equal-by-identifier',
                   'Hashable.__eq__', 'meters %s: equality table %s' % (
                       ids, eq), 'nilmtk/hashable.py')
        ctx.expect(all(ne[i][j] is (i != j) for i in range(k)
                       for j in range(k)), 'unequal-consistent',
                   'Hashable.__ne__', 'meters %s: inequality table %s' % (
                       ids, ne), 'nilmtk/hashable.py')
        ctx.expect(h == g, 'hash-consistent', 'Hashable.__hash__',
                   'equal meters hash differently', 'nilmtk/hashable.py')
        ctx.expect(other is False, 'equal-by-identifier', 'Hashable.__eq__',
                   'a meter equals a string', 'nilmtk/hashable.py')
        ctx.expect(n == k, 'registered-once', C, '%d meters made twice '
                   'are registered %d times' % (k, n), LOC)
    for nm, x in (('instance', 2), ('building', 3), ('dataset', 'D')):
        def go():
            fresh(I)
            m = I.call(cls, [None, None, ident(I, 2, 3, 'D')], {})
            z = I.call(cls, [], {})
            return [I.call(I.getattr(y, nm), [], {}) for y in (m, z)]
        for out, v, tr in each(ctx, I, 'ElecMeter.' + nm, go):
            ctx.expect(out == 'return' and v == [x, None], 'identifier-parts',
                       'ElecMeter.' + nm, '%s of (2, 3, D) and of a meter '
                       'with no identifier: %s' % (
                           nm, v if out == 'return' else name(v)), LOC)
    C = 'ElecMeter.get_timeframe'

    def go():
        n = len(I.trace)
        I.call(I.getattr(meter(I, UNI[:1]), 'get_timeframe'), [], {})
        return [e.data for e in I.trace[n:] if e.kind == 'store-timeframe']
    for out, v, tr in each(ctx, I, C, go):
        ok = out == 'return' and len(v) == 1 and (
            v[0]['args'] + list(v[0]['kw'].values())) == [
                '/building1/elec/meter1']
        ctx.expect(ok, 'location', C, 'asks the store for %s' % (
            v if out == 'return' else name(v),), LOC)
    for out, v, tr in each(ctx, I, C, lambda: I.call(I.getattr(
            I.call(cls, [], {}), 'get_timeframe'), [], {})):
        ctx.expect(out == 'raise' and exc_name(v) == 'RuntimeError',
                   'no-store', C, 'a meter without a store has a timeframe',
                   LOC)


# ---------------------------------------------------------------- appliances
class App(Dom):
    __slots__ = ('nm', 'dom')

    def __init__(self, nm, dom):
        self.nm, self.dom = nm, dom

    def d_truth(self, I):
        return True

    def d_getattr(self, I, a):
        if a == 'metadata':
            return aval({'dominant_appliance': True} if self.dom else {})
        if a == 'label':
            return Native(lambda I, x, k: self.nm, a)
        if a == 'identifier':
            return AppId(self.nm)
        return NotImplemented


class AppId(Dom):
    __slots__ = ('nm',)

    def __init__(self, nm):
        self.nm = nm

    def d_truth(self, I):
        return True

    def d_getattr(self, I, a):
        return self.nm if a == 'type' else NotImplemented


def appliances(ctx, I):
    C = 'ElecMeter.dominant_appliance'
    for n in range(4):
        for dom in [None] + list(range(n)):
            def go():
                m = meter(I, UNI[:1])
                apps = [App('app%d' % i, i == dom) for i in range(n)]
                I.setattr(m, 'appliances', AList(apps))
                d = I.call(I.getattr(m, 'dominant_appliance'), [], {})
                lab = I.call(I.getattr(m, 'label'), [], {}) if n else None
                full = I.call(I.getattr(m, 'label'), [], {'pretty': False})
                return (apps.index(d) if d in apps else d), lab, full
            for out, v, tr in each(ctx, I, C, go):
                want = None if not n else dom if dom is not None else 0
                ctx.expect(out == 'return' and v[0] == want,
                           'dominant-appliance', C, '%d appliances, number '
                           '%s marked: %s' % (n, dom, v[0] if out == 'return'
                                              else name(v)), LOC)
                if out != 'return':
                    continue
                if n:
                    ctx.expect(v[1] == 'App%d' % want, 'label',
                               'ElecMeter.label', '%d appliances, number %s '
                               'marked: %s' % (n, dom, v[1]), LOC)
                names = ['APP%d' % i if i == dom else 'app%d' % i
                         for i in range(n)]
                ctx.expect(v[2] == ', '.join(names), 'label',
                           'ElecMeter.label', '%d appliances, number %s '
                           'marked: %s' % (n, dom, v[2]), LOC)
    for meta, w, full in (({'name': 'boiler room'}, 'Boiler room',
                           'boiler room'),
                          ({'site_meter': True}, 'Site meter', 'SITE METER')):
        def go():
            m = meter(I, UNI[:1], meta=meta)
            I.setattr(m, 'appliances', AList([App('kettle', False)]))
            return (I.call(I.getattr(m, 'label'), [], {}),
                    I.call(I.getattr(m, 'label'), [], {'pretty': False}))
        for out, v, tr in each(ctx, I, 'ElecMeter.label', go):
            ctx.expect(out == 'return' and v == (w, full), 'label',
                       'ElecMeter.label', 'metadata %s: %s' % (
                           meta, v if out == 'return' else name(v)), LOC)
