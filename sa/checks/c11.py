"""C11 - results of periods are kept apart, merged exactly and survive the
statistics cache.  The Results classes and the statistics entry points of
ElecMeter are abstractly interpreted; the data store and the cache are
recording stand-ins, readings are named atoms."""
import itertools
from fractions import Fraction

from .tablecommon import *  # noqa
from .tablecommon import TM, Frame, Source, Idx
from .c10 import T, offset, runs_of, oracle, frame, J

MIN_OBLIGATIONS = 150
ASSUMPTIONS = ['a cache table reads back exactly the rows appended to it; '
               'appending rows with other columns raises ValueError',
               'the same columns are asked for again']
RES = {'TotalEnergyResults': 'nilmtk.stats.totalenergyresults.',
       'DropoutRateResults': 'nilmtk.stats.dropoutrateresults.',
       'GoodSectionsResults': 'nilmtk.stats.goodsectionsresults.'}


def LOCOF(n):
    return 'nilmtk/stats/%s.py' % n.lower()


def tfr(I, a, b):
    tf = I.get('nilmtk.timeframe.TimeFrame')
    return I.call(tf, [None if a is None else T(a),
                       None if b is None else T(b)], {})


def payload(I, name, tag, secs=None):
    N = lambda x: atom('num', '%s_%s' % (tag, x))
    if name == 'TotalEnergyResults':
        return ADict([('active', N('act')), ('apparent', N('app'))])
    if name == 'DropoutRateResults':
        return ADict([('dropout_rate', N('rate')), ('n_samples', N('n'))])
    return ADict([('sections', AList([AList([tfr(I, a, b)
                                             for a, b in secs])]))])


def new(I, cls):
    return I.call(cls, [10] if cls.name == 'GoodSectionsResults' else [], {})


def table(I, r):
    """{start offset: {column: cell}}"""
    d = I.call(I.getattr(r, 'per_period'), [], {})
    if not isinstance(d, Frame):
        raise Unk('per_period %s' % short(d))
    out = []
    for i, l in enumerate(d.idx.labels):
        out.append((offset(l), {c: x[i] for c, x in zip(d.cols.labels,
                                                        d.data)}))
    return out, d


def cellrepr(I, c):
    if isinstance(c, Lin) and c.kind == 'ts':
        return offset(c)
    if isinstance(c, (AList, tuple)):
        return tuple(cellrepr(I, x) for x in I.iterate(c))
    if isinstance(c, AObj) and c.cls.name == 'TimeFrame':
        return (offset(I.getattr(c, 'start')), offset(I.getattr(c, 'end')))
    if isinstance(c, AObj):
        try:
            return tuple(cellrepr(I, x) for x in I.iterate(c))
        except AbstractRaise:
            raise Unk(short(c))
    if isinstance(c, float) and c != c:
        return 'nan'
    if isinstance(c, Lin):
        return repr(Lin('num', c.co, c.const))
    return c


def plainrows(I, rows):
    return [(s, {k: cellrepr(I, v) for k, v in r.items()}) for s, r in rows]


PERIODS = {'a': (0, 100, [(0, 20), (40, 60)]),
           'b': (100, 200, [(110, 130)]),
           'c': (300, 400, [(310, 330), (350, 400)])}


def fill(I, cls, names, tags=None):
    r = new(I, cls)
    for n in names:
        s, e, secs = PERIODS[n]
        I.call(I.getattr(r, 'append'), [
            tfr(I, s, e), payload(I, cls.name, (tags or {}).get(n, n),
                                  secs)], {})
    return r


def want_rows(I, name, names, tags=None):
    out = []
    for n in sorted(names, key=lambda x: PERIODS[x][0]):
        s, e, secs = PERIODS[n]
        row = {'end': float(e)}
        t = (tags or {}).get(n, n)
        if name == 'TotalEnergyResults':
            row.update(active='%s_act' % t, apparent='%s_app' % t)
        elif name == 'DropoutRateResults':
            row.update(dropout_rate='%s_rate' % t, n_samples='%s_n' % t)
        else:
            row['sections'] = tuple((float(a), float(b)) for a, b in secs)
        out.append((float(s), row))
    return out


def run(ctx):
    I = ctx.interp(models=dict(TM))
    for n, mod in RES.items():
        cls = ctx.anchor(I, mod + n)
        appending(ctx, I, cls)
        updating(ctx, I, cls)
        unifying(ctx, I, cls)
        caching(ctx, I, cls)
    totals(ctx, I)
    ctx.absorb(I)
    meters(ctx)


# ---------------------------------------------------------------- appending
def appending(ctx, I, cls):
    C, LOC = cls.name + '.append', LOCOF(cls.name)
    for names in [p for k in range(4) for p in itertools.permutations(
            'abc', k)]:
        def go():
            r = fill(I, cls, names)
            rows, d = table(I, r)
            tfs = [(offset(I.getattr(t, 'start')), offset(I.getattr(
                t, 'end'))) for t in I.iterate(I.call(I.getattr(
                    r, 'timeframes'), [], {}))]
            # changing what per_period returned must not reach the results
            for col in d.data:
                for i in range(len(col)):
                    col[i] = NAN
            rows2, _ = table(I, r)
            return plainrows(I, rows), plainrows(I, rows2), tfs
        for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                ctx.violation('append', C, 'appending %s raises %s' % (
                    names, exc_name(v)), LOC)
                continue
            a, b, tfs = v
            w = want_rows(I, cls.name, names)
            ctx.expect(a == w, 'append', C, 'appending periods %s gives %s, '
                       'expected %s' % (list(names), a, w), LOC)
            ctx.expect(b == a, 'per-period-is-a-copy', cls.name +
                       '.per_period', 'the stored results change with the '
                       'table handed out', 'nilmtk/results.py')
            ctx.expect(tfs == [(s, r['end']) for s, r in w], 'timeframes',
                       cls.name + '.timeframes', '%s for %s' % (tfs, w),
                       'nilmtk/results.py')
    # overlaps and wrong types are refused, leaving the results alone
    for what, arg in (('overlapping at the start', (50, 150)),
                      ('overlapping inside', (10, 20)),
                      ('the same period', (0, 100)),
                      ('enclosing', (-10, 500)),
                      ('ending inside', (-10, 10))):
        def go():
            r = fill(I, cls, 'ac')
            ok = 'accepted'
            try:
                I.call(I.getattr(r, 'append'), [
                    tfr(I, *arg), payload(I, cls.name, 'z',
                                          [(arg[0], arg[1])])], {})
            except AbstractRaise as e:
                ok = exc_name(e.exc)
            return ok, plainrows(I, table(I, r)[0])
        for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                ctx.violation('append-refuses', C, what + ': raises ' +
                              exc_name(v), LOC)
                continue
            ctx.expect(v[0] != 'accepted', 'append-refuses-overlap', C,
                       'a period %s %s is accepted' % (what, arg), LOC)
            ctx.expect(v[1] == want_rows(I, cls.name, 'ac'),
                       'refusal-changes-nothing', C, 'after refusing a '
                       'period %s: %s' % (what, v[1]), LOC)
    # touching periods are accepted
    for arg in ((100, 300), (-20, 0), (400, 500)):
        def go():
            r = fill(I, cls, 'ac')
            I.call(I.getattr(r, 'append'), [
                tfr(I, *arg), payload(I, cls.name, 'z',
                                      [(arg[0], arg[1])])], {})
            return len(table(I, r)[0])
        for out, v, tr in each(ctx, I, C, go):
            ctx.expect(out == 'return' and v == 3, 'append-accepts-touching',
                       C, 'period %s next to (0, 100) and (300, 400): %s' % (
                           arg, v if out == 'return' else exc_name(v)), LOC)
    if cls.name == 'TotalEnergyResults':
        def go():
            r = new(I, cls)
            I.call(I.getattr(r, 'append'), [tfr(I, 0, 1), ADict(
                [('actve', 1)])], {})
        for out, v, tr in each(ctx, I, C, go):
            ctx.expect(out == 'raise', 'append-refuses-unknown-type', C,
                       'an unknown AC type is accepted', LOC)


# ----------------------------------------------------------------- updating
def updating(ctx, I, cls):
    C, LOC = cls.name + '.update', 'nilmtk/results.py'
    for x, y in (('a', 'b'), ('b', 'a'), ('', 'ab'), ('ab', ''),
                 ('ac', 'b'), ('c', 'ba'), ('', '')):
        def go():
            r, o = fill(I, cls, x), fill(I, cls, y)
            k = plainrows(I, table(I, o)[0])
            I.call(I.getattr(r, 'update'), [o], {})
            return plainrows(I, table(I, r)[0]), k == plainrows(
                I, table(I, o)[0])
        for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                ctx.violation('update', C, '%s + %s raises %s' % (
                    x, y, exc_name(v)), LOC)
                continue
            w = want_rows(I, cls.name, x + y)
            ctx.expect(v[0] == w, 'update', C, 'periods %s updated with %s: '
                       '%s, expected %s' % (list(x), list(y), v[0], w), LOC)
            ctx.expect(v[1], 'update-leaves-source', C, 'the results '
                       'updated from are changed', LOC)
    for x, y in (('a', 'a'), ('ab', 'b')):
        def go():
            r, o = fill(I, cls, x), fill(I, cls, y)
            I.call(I.getattr(r, 'update'), [o], {})
        for out, v, tr in each(ctx, I, C, go):
            ctx.expect(out == 'raise', 'update-refuses-overlap', C,
                       'overlapping periods %s + %s are accepted' % (x, y),
                       LOC)

    def go():
        r = fill(I, cls, 'a')
        other = 'DropoutRateResults' if cls.name != 'DropoutRateResults' \
            else 'TotalEnergyResults'
        o = fill(I, I.get(RES[other] + other), 'b')
        I.call(I.getattr(r, 'update'), [o], {})
    for out, v, tr in each(ctx, I, C, go):
        ctx.expect(out == 'raise' and exc_name(v) == 'TypeError',
                   'update-refuses-other-statistic', C,
                   'results of another statistic are accepted', LOC)


# ----------------------------------------------------------------- unifying
def unifying(ctx, I, cls):
    C, LOC = cls.name + '.unify', LOCOF(cls.name)
    for names in ('', 'a', 'ab', 'abc'):
        def go():
            r = fill(I, cls, names)
            o = fill(I, cls, names[::-1], {n: n + 'O' for n in names})
            k = plainrows(I, table(I, o)[0])
            I.call(I.getattr(r, 'unify'), [o], {})
            return table(I, r)[0], k == plainrows(I, table(I, o)[0])
        for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                ctx.violation('unify', C, 'periods %s: raises %s' % (
                    list(names), exc_name(v)), LOC)
                continue
            rows, same_o = v
            ctx.expect(same_o, 'unify-leaves-source', C, 'the other results '
                       'are changed', LOC)

            def judge():
                w = want_rows(I, cls.name, names)
                ok = [s for s, _ in rows] == [s for s, _ in w] and all(
                    offset(r['end']) == q['end']
                    for (_, r), (_, q) in zip(rows, w))
                ctx.expect(ok, 'unify-keeps-periods', C, 'periods become %s'
                           % plainrows(I, rows), LOC)
                if not ok:
                    return
                for (s, r), n in zip(rows, sorted(names)):
                    A = lambda x, t=n: atom('num', '%s_%s' % (t, x))
                    B = lambda x, t=n + 'O': atom('num', '%s_%s' % (t, x))
                    if cls.name == 'TotalEnergyResults':
                        exp = {'active': A('act').add(B('act')),
                               'apparent': A('app').add(B('app'))}
                    elif cls.name == 'DropoutRateResults':
                        exp = {'dropout_rate': A('rate').add(
                            B('rate')).scale(Fraction(1, 2)),
                            'n_samples': A('n').add(B('n'))}
                    else:
                        ctx.expect(cellrepr(I, r['sections']) == tuple(
                            (float(a), float(b))
                            for a, b in PERIODS[n][2]), 'unify', C,
                            'sections become %s' % (cellrepr(
                                I, r['sections']),), LOC)
                        continue
                    for k, e in exp.items():
                        ctx.expect(eqv(I, r.get(k, NAN), e), 'unify', C,
                                   '%s of period %s: %s, expected %s' % (
                                       k, n, short(r.get(k)), e), LOC)
            guard(ctx, C, judge)
    if cls.name == 'GoodSectionsResults':
        def go():
            r, o = new(I, cls), new(I, cls)
            for q, secs in ((r, [(0, 30), (50, 80)]), (o, [(20, 60)])):
                I.call(I.getattr(q, 'append'), [tfr(I, 0, 100), payload(
                    I, cls.name, '', secs)], {})
            I.call(I.getattr(r, 'unify'), [o], {})
            return cellrepr(I, table(I, r)[0][0][1]['sections'])
        for out, v, tr in each(ctx, I, C, go):
            ctx.expect(out == 'return' and v == ((20.0, 30.0),
                                                 (50.0, 60.0)),
                       'unify', C, '(0-30, 50-80) and (20-60) give %s' % (
                           v if out == 'return' else exc_name(v),), LOC)
    # periods that differ are refused
    for what, other in (('another end', (0, 90)), ('another start',
                                                   (10, 100)),
                        ('no period', None)):
        def go():
            r, o = fill(I, cls, 'a'), new(I, cls)
            if other:
                I.call(I.getattr(o, 'append'), [
                    tfr(I, *other), payload(I, cls.name, 'z',
                                            [(20, 40)])], {})
            I.call(I.getattr(r, 'unify'), [o], {})
        for out, v, tr in each(ctx, I, C, go):
            ctx.expect(out == 'raise', 'unify-refuses-other-periods', C,
                       'results with %s are accepted' % what, LOC)


# ------------------------------------------------------------------ caching
def caching(ctx, I, cls):
    """export_to_cache -> import_from_cache"""
    C, LOC = cls.name + '.import_from_cache', LOCOF(cls.name)
    for stored, asked in (('abc', 'abc'), ('abc', 'b'), ('ab', 'c'),
                          ('abc', 'ca'), ('', 'a'), ('abc', ''),
                          ('abc', 'a-c'), ('ab', '-b')):
        for again in (False, True):
            if again and not (stored and asked):
                continue

            def go():
                r = fill(I, cls, stored)
                t = I.call(I.getattr(r, 'export_to_cache'), [], {})
                if not isinstance(t, Frame):
                    raise Undecided('export %s' % short(t))
                if again:
                    # an older, differently bounded entry with the same start
                    q = new(I, cls)
                    I.call(I.getattr(q, 'append'), [
                        tfr(I, 100, 150), payload(I, cls.name, 'old',
                                                  [(100, 150)])], {})
                    t2 = I.call(I.getattr(q, 'export_to_cache'), [], {})
                    t = I.call(Ext('pandas.concat'), [AList([t2, t])], {})
                n = new(I, cls)
                secs = AList([tfr(I, PERIODS[x][0], PERIODS[x][1])
                              if x != '-' else I.call(I.getattr(
                                  tfr(I, 0, 1), 'intersection'),
                                  [tfr(I, 5, 6)], {}) for x in asked])
                I.call(I.getattr(n, 'import_from_cache'), [t, secs], {})
                return plainrows(I, table(I, n)[0])
            for out, v, tr in each(ctx, I, C, go):
                what = 'cached %s%s, asked for %s' % (
                    list(stored), ' and another period' if again else '',
                    list(asked))
                if out == 'raise':
                    ctx.violation('cache-round-trip', C, '%s: raises %s' % (
                        what, exc_name(v)), LOC)
                    continue
                w = want_rows(I, cls.name, set(stored) & set(asked))
                ctx.expect(v == w, 'cache-round-trip', C, '%s: %s, expected '
                           '%s' % (what, v, w), LOC)


    if cls.name != 'TotalEnergyResults':
        return
    # periods which do not all have the same AC types
    for first, second in (('active', 'apparent'), ('both', 'active'),
                          ('apparent', 'both')):
        def go():
            out = []
            r = new(I, cls)
            for (a, b), ts in (((0, 100), first), ((100, 200), second)):
                I.call(I.getattr(r, 'append'), [tfr(I, a, b), ADict(
                    [(t, atom('num', '%s_%s' % (a, t[:3])))
                     for t in ('active', 'apparent')
                     if ts in (t, 'both')])], {})
            n = new(I, cls)
            I.call(I.getattr(n, 'import_from_cache'), [I.call(I.getattr(
                r, 'export_to_cache'), [], {}), AList(
                    [tfr(I, 0, 100), tfr(I, 100, 200)])], {})
            for q in (r, n):
                s = I.call(I.getattr(q, 'combined'), [], {})
                if not isinstance(s, Series):
                    raise Unk(short(s))
                out.append({l: cellrepr(I, x) for l, x in zip(
                    s.idx.labels, s.vals)})
            return out
        for out, v, tr in each(ctx, I, C, go):
            ctx.expect(out == 'return' and v[0] == v[1], 'cache-round-trip',
                       C, 'periods with AC types %s and %s: %s' % (
                           first, second, v if out == 'return' else
                           exc_name(v)), LOC)


# ------------------------------------------------------------------- totals
def totals(ctx, I):
    cls = ctx.anchor(I, RES['DropoutRateResults'] + 'DropoutRateResults')
    C, LOC = 'DropoutRateResults.combined', LOCOF('DropoutRateResults')
    for rows in ([(0.5, 10)], [(0.5, 10), (0.0, 30)], [(1.0, 1), (0.25, 7),
                                                       (0.0, 2)]):
        def go():
            r = new(I, cls)
            for i, (p, n) in enumerate(rows):
                I.call(I.getattr(r, 'append'), [
                    tfr(I, 100 * i, 100 * i + 100),
                    ADict([('dropout_rate', p), ('n_samples', n)])], {})
            k = plainrows(I, table(I, r)[0])
            v = I.call(I.getattr(r, 'combined'), [], {})
            d = I.call(I.getattr(r, 'to_dict'), [], {})
            return v, d, k == plainrows(I, table(I, r)[0])
        for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                ctx.violation('weighted-mean', C, 'raises ' + exc_name(v),
                              LOC)
                continue
            w = sum(p * n for p, n in rows) / sum(n for _, n in rows)

            def judge():
                ctx.expect(eqv(I, v[0], w), 'weighted-mean', C,
                           '%s: %s, expected %s' % (rows, short(v[0]), w),
                           LOC)
                d = pyval(v[1])
                ctx.expect(abs(d['statistics']['dropout_rate'] - w) < 1e-9,
                           'to-dict', 'DropoutRateResults.to_dict', str(d),
                           LOC)
                ctx.expect(v[2], 'combined-leaves-results', C, 'the results '
                           'change', LOC)
            guard(ctx, C, judge)
    cls = ctx.anchor(I, RES['TotalEnergyResults'] + 'TotalEnergyResults')
    C, LOC = 'TotalEnergyResults.combined', LOCOF('TotalEnergyResults')

    def go():
        r = fill(I, cls, 'abc')
        I.call(I.getattr(r, 'append'), [tfr(I, 600, 700), ADict(
            [('reactive', atom('num', 'z'))])], {})
        return I.call(I.getattr(r, 'simple'), [], {})
    for out, v, tr in each(ctx, I, C, go):
        if out == 'raise' or not isinstance(v, Series):
            ctx.violation('energy-sums', C, short(v), LOC)
            continue
        got = dict(zip(v.idx.labels, v.vals))
        S = lambda x: Lin('num', {'%s_%s' % (n, x): 1 for n in 'abc'})
        w = {'active': S('act'), 'apparent': S('app'),
             'reactive': atom('num', 'z')}

        def judge():
            ctx.expect(set(got) == set(w) and all(eqv(I, got[k], w[k])
                                                  for k in w),
                       'energy-sums', C, '%s, expected %s' % (
                           short(v), w), LOC)
        guard(ctx, C, judge)


# ------------------------------------------------------------------- meters
class FakeCache(Dom):
    __slots__ = ('t',)

    def __init__(self):
        self.t = {}

    def d_truth(self, I):
        return True

    def d_deepcopy(self, I, memo):
        return self

    def norm(self, k):
        if not isinstance(k, str):
            raise Undecided('cache key %s' % short(k))
        return k.strip('/')

    def d_getitem(self, I, key):
        k = self.norm(key)
        I.event('cache-get', key=k)
        if k not in self.t:
            I.throw('KeyError', k)
        return self.t[k].copy()

    def d_contains(self, I, key):
        return self.norm(key) in self.t

    def d_getattr(self, I, name):
        def put(I, a, k):
            I.event('cache-put', key=self.norm(a[0]))
            self.t[self.norm(a[0])] = a[1].copy()

        def append(I, a, k):
            key, df = self.norm(a[0]), a[1]
            I.event('cache-append', key=key)
            if not isinstance(df, Frame):
                raise Undecided('cache %s' % short(df))
            if not df.idx.labels:
                return
            if key in self.t:
                old = self.t[key]
                if key_of(old.cols) != key_of(df.cols) and {
                        key_of(c) for c in old.cols.labels} != {
                        key_of(c) for c in df.cols.labels}:
                    I.throw('ValueError', 'columns do not match')
                self.t[key] = I.call(Ext('pandas.concat'), [AList(
                    [old, df])], {})
            else:
                self.t[key] = df.copy()

        def remove(I, a, k):
            key = self.norm(a[0])
            I.event('cache-remove', key=key)
            hit = [x for x in self.t if x == key or x.startswith(key + '/')]
            if not hit:
                I.throw('KeyError', key)
            for x in hit:
                del self.t[x]
        h = {'put': put, 'append': append, 'remove': remove}.get(name)
        return Native(h, name) if h else NotImplemented


class FakeStore(Dom):
    """one chunk per section; reading names tell meter, section and row"""
    __slots__ = ('cols', 'window', 'step')

    def __init__(self, cols, window=(0, 400), step=10):
        self.cols, self.window, self.step = cols, window, step

    def d_truth(self, I):
        return True

    def d_deepcopy(self, I, memo):
        return self

    def d_getattr(self, I, name):
        if name == 'get_timeframe':
            return Native(lambda I, a, k: tfr(I, *self.window), name)
        if name == 'window':
            return tfr(I, None, None)
        if name == 'load':
            def load(I, a, k):
                k = dict(k)
                key = a[0] if a else k.pop('key')
                secs = k.pop('sections', None)
                cols = k.pop('columns', None)
                k.pop('n_look_ahead_rows', None)
                k.pop('verbose', None)
                k.pop('chunksize', None)
                if k:
                    I.throw('TypeError', 'load() got an unexpected keyword '
                            'argument %s' % sorted(k)[0])
                cs = self.cols if cols is None else list(I.iterate(cols))
                I.event('load', key=key, cols=cs)

                def gen():
                    lst = [tfr(I, *self.window)] if secs is None else list(
                        I.iterate(secs))
                    for s in lst:
                        a, b = I.getattr(s, 'start'), I.getattr(s, 'end')
                        a = self.window[0] if a is None else offset(a)
                        b = self.window[1] if b is None else offset(b)
                        I.event('section', span=(float(a), float(b)))
                        st = self.step
                        end = I.getattr(s, 'end') is None or I.truth(
                            I.getattr(s, 'include_end'))
                        ts = [x * st for x in range(int(b // st) + 1)
                              if a <= x * st <= b and (x * st) % 70 != 30
                              and (end or x * st < b)]
                        df = Frame(Idx([T(t) for t in ts], dt=True),
                                   Idx(cs, names=['physical_quantity',
                                                  'type']),
                                   [[atom('num', '%s@%d:%s' % (
                                       key, t, '/'.join(c))) for t in ts]
                                    for c in cs])
                        df.attrs['timeframe'] = s
                        df.attrs['look_ahead'] = Frame()
                        yield df
                return AGen(gen())
            return Native(load, name)
        return NotImplemented


COLS = [('power', 'active'), ('power', 'apparent')]
DEV = {'measurements': [{'physical_quantity': q, 'type': t}
                        for q, t in COLS],
       'max_sample_period': 10, 'sample_period': 10, 'model': 'dev'}


def meter(I, cache, instance=1, building=1, dataset='D', store=None,
          meta=None, longest=10):
    cls = I.get('nilmtk.elecmeter.ElecMeter')
    mid = I.get('nilmtk.elecmeter.ElecMeterID')
    I.setattr(cls, 'meter_devices', aval(
        {'dev': dict(DEV, max_sample_period=longest)}))
    md = {'device_model': 'dev', 'data_location':
          '/building%d/elec/meter%s' % (building, instance)}
    md.update(meta or {})
    m = I.call(cls, [store or FakeStore(COLS), aval(md)], {})
    I.setattr(m, 'identifier', I.call(mid, [instance, building, dataset],
                                      {}))
    I.setattr(m, 'cache', cache)
    return m


def result(I, v):
    """comparable form of a statistic"""
    if isinstance(v, Series):
        return {k: repr(lift(x)) if isinstance(x, Lin) else x
                for k, x in zip(v.idx.labels, v.vals)}
    if isinstance(v, (int, float)):
        return round(v, 9)
    if isinstance(v, (AList, AObj)):
        return [(offset(I.getattr(s, 'start')), offset(I.getattr(s, 'end')),
                 I.getattr(s, 'include_end')) for s in I.iterate(v)]
    raise Unk('statistic %s' % short(v))


HIST = {
    'again': [None, None],
    'again-sections': ['ab', 'ab'],
    'grow': ['a', 'ab'],
    'shrink': ['abc', 'b'],
    'other': ['a', 'c'],
    'same-start': [('a',), ('A',)],
    'same-start-grow': [('A',), ('a', 'c')],
    'interleaved': ['c', 'a', 'abc'],
    'three': ['b', 'b', 'ab'],
    'grown-shrink': ['a', 'ab', 'a'],
    'grown-again': ['a', 'ab', 'ab'],
    'grown-twice': ['a', 'ab', 'abc', 'bc']}
SPAN = {'a': (0, 100), 'b': (100, 200), 'c': (300, 400), 'A': (0, 200)}
STATS = (('total_energy', {}), ('good_sections', {}),
         ('dropout_rate', {'ignore_gaps': False}),
         ('dropout_rate', {'ignore_gaps': True}))


def meters(ctx):
    I = ctx.interp(models=dict(TM))
    ctx.anchor(I, 'nilmtk.elecmeter.ElecMeter')
    LOC = 'nilmtk/elecmeter.py'
    I.positive = set()

    def ask(m, stat, kw, secs, **more):
        kw = dict(kw)
        if secs is not None:
            kw['sections'] = AList([tfr(I, *SPAN[x]) for x in secs])
        kw.update(more)
        return I.call(I.getattr(m, stat), [], kw)

    for stat, kw in STATS:
        C = 'ElecMeter.' + stat
        for h, seq in HIST.items():
            def go():
                cache = FakeCache()
                m = meter(I, cache)
                for s in seq[:-1]:
                    ask(m, stat, kw, s)
                n = len(I.trace)
                got = result(I, ask(m, stat, kw, seq[-1]))
                spans = [e.data['span'] for e in I.trace[n:]
                         if e.kind == 'section']
                f = meter(I, FakeCache())
                return got, result(I, ask(f, stat, kw, seq[-1])), spans
            for out, v, tr in each(ctx, I, C, go):
                if out == 'raise':
                    ctx.violation('cache-transparent', C, 'asked for %s: '
                                  'raises %s' % (seq, exc_name(v)), LOC)
                    continue
                got, fresh, spans = v
                ctx.expect(got == fresh, 'cache-transparent', C,
                           'asked for periods %s (%s): %s, but without the '
                           'cache %s' % (seq, kw, got, fresh), LOC)
                if h in ('again', 'again-sections', 'shrink') and not kw.get(
                        'ignore_gaps'):
                    ctx.expect(not spans, 'cache-used', C, 'asked for '
                               'periods %s: %s computed again' % (
                                   seq, spans), LOC)
                if h == 'grow' and not kw.get('ignore_gaps'):
                    ctx.expect(spans == [(100.0, 200.0)], 'cache-used', C,
                               'asked for %s: computes %s' % (seq, spans),
                               LOC)
        # clear_cache, other meters, full results
        for what in ('cleared', 'other-instance', 'other-building',
                     'two-digit', 'tuple', 'full'):
            def go():
                cache = FakeCache()
                a = meter(I, cache, 1, 1)
                ask(a, stat, kw, None)
                if what == 'cleared':
                    I.call(I.getattr(a, 'clear_cache'), [], {})
                    left = [x for x in cache.t if '/meter1/' in x]
                    n = len(I.trace)
                    got = result(I, ask(a, stat, kw, None))
                    sp = [e for e in I.trace[n:] if e.kind == 'section']
                    f = meter(I, FakeCache(), 1, 1)
                    return got, result(I, ask(f, stat, kw, None)), \
                        bool(sp) and not left
                if what == 'full':
                    r = ask(a, stat, kw, None, full_results=True)
                    got = result(I, I.call(I.getattr(r, 'simple'), [], {}))
                    f = meter(I, FakeCache(), 1, 1)
                    return got, result(I, ask(f, stat, kw, None)), True
                inst, b = {'other-instance': (2, 1), 'other-building':
                           (1, 2), 'two-digit': (11, 1),
                           'tuple': ((1, 2), 1)}[what]
                st = FakeStore(COLS, step=5)
                o = meter(I, cache, inst, b, store=st)
                got = result(I, ask(o, stat, kw, None))
                f = meter(I, FakeCache(), inst, b, store=st)
                return got, result(I, ask(f, stat, kw, None)), True
            for out, v, tr in each(ctx, I, C, go):
                if out == 'raise':
                    ctx.violation('cache-transparent', C, '%s: raises %s' % (
                        what, exc_name(v)), LOC)
                    continue
                ctx.expect(v[0] == v[1], 'cache-transparent', C,
                           '%s: %s, but without the cache %s' % (
                               what, v[0], v[1]), LOC)
                ctx.expect(v[2], 'cache-cleared', 'ElecMeter.clear_cache',
                           'statistics survive clearing the cache', LOC)
        if stat == 'good_sections' or kw.get('ignore_gaps'):
            continue
        # values against the readings
        for secs, spans, last in (('ac', [SPAN['a'], SPAN['c']], 0),
                                  (None, [(0, 400)], 1)):
          def go():
            m = meter(I, FakeCache())
            return ask(m, stat, kw, secs)
          for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                continue

            def judge():
                if stat == 'dropout_rate':
                    ctx.expect(isinstance(v, (int, float)) and 0 <= v <= 1,
                               'statistic-range', C, short(v), LOC)
                    return
                want = {}
                for q, ac in COLS:
                    e = Lin('num')
                    for s in spans:
                        ts = [t for t in range(s[0], s[1] + last, 10)
                              if t % 70 != 30]
                        for x, y in zip(ts, ts[1:]):
                            e = e.add(atom('num', '/building1/elec/meter1@'
                                           '%d:%s/%s' % (x, q, ac)).scale(
                                               Fraction(10, J)))
                    want[ac] = e
                got = dict(zip(v.idx.labels, v.vals))
                ctx.expect(set(got) == set(want) and all(
                    eqv(I, got[k], want[k]) for k in want),
                    'statistic-value', C, 'energy of %s: %s' % (
                        'two periods' if secs else 'everything', short(v)),
                    LOC)
            guard(ctx, C, judge)
    # a dropout rate is that of the good sections unless asked otherwise
    C = 'ElecMeter.dropout_rate'
    for secs in (None, 'a', 'ac'):
        def go():
            return [result(I, ask(meter(I, FakeCache()), 'dropout_rate', kw,
                                  secs)) for kw in (
                {}, {'ignore_gaps': True}, {'ignore_gaps': False})]
        for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                ctx.violation('statistic-value', C, 'raises %s' % exc_name(v),
                              LOC)
                continue
            ctx.expect(v[0] == v[1] != v[2], 'statistic-value', C,
                       'dropout rate by default %s, of the good sections %s, '
                       'of everything %s' % tuple(v), LOC)
            # and of the good sections of the periods asked for
    for secs in ('a', 'ac', 'A'):
        def go():
            m, f = [meter(I, FakeCache(), longest=20) for i in (0, 1)]
            good = ask(f, 'good_sections', {}, secs)
            return result(I, ask(m, 'dropout_rate', {'ignore_gaps': True},
                                 secs)), result(I, I.call(
                I.getattr(f, 'dropout_rate'), [], {
                    'ignore_gaps': False, 'sections': good}))
        for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                ctx.violation('statistic-value', C, 'raises %s' % exc_name(v),
                              LOC)
                continue
            ctx.expect(v[0] == v[1], 'statistic-value', C, 'dropout rate of '
                       'the good sections of %s: %s, expected %s' % (
                           (secs,) + tuple(v)), LOC)
    # AC types
    C = 'ElecMeter.total_energy'
    TWO = ('active', 'apparent')
    for *befores, second in (
            ('active', 'apparent'), (None, 'apparent'),
            ('apparent', 'active'), ('active', TWO), (None, TWO),
            ('apparent', TWO, 'apparent'), ('active', TWO, TWO),
            ('active', 'apparent', 'active')):
        first = befores
        typed = lambda t: {} if t is None else {
            'ac_type': AList(t) if isinstance(t, tuple) else t}

        def go():
            m = meter(I, FakeCache())
            for t in befores:
                ask(m, 'total_energy', typed(t), None)
            got = result(I, ask(m, 'total_energy', typed(second), None))
            f = meter(I, FakeCache())
            return got, result(I, ask(f, 'total_energy', typed(second),
                                      None))
        for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                ctx.violation('cache-transparent', C, 'AC type %s after %s: '
                              'raises %s' % (second, first, exc_name(v)),
                              LOC)
                continue
            ctx.expect(v[0] == v[1] and set(v[0]) == (
                set(second) if isinstance(second, tuple) else {second}),
                       'cache-transparent', C, 'AC type %s after %s: %s, '
                       'but without the cache %s' % (
                           second, first, v[0], v[1]), LOC)
    def go():
        m = meter(I, FakeCache())
        ask(m, 'total_energy', {'ac_type': 'active'}, None)
        return result(I, ask(m, 'total_energy', {}, None))
    for out, v, tr in each(ctx, I, C, go):
        ctx.expect(out == 'return' and set(v) == {'active', 'apparent'},
                   'cache-complete-types', C, 'all AC types after active '
                   'only: %s' % (v if out == 'return' else exc_name(v),),
                   LOC)
    # the cache key tells meters and statistics apart
    C = 'ElecMeter.key_for_cached_stat'

    def go():
        out = {}
        for ds in ('D', 'E'):
            for b in (1, 2, 11):
                for i in (1, 2, 12, (1, 2), (11, 2), (1, 2, 3),
                          (1, 2, 4), (2, 3), (1, 12), (1, 2, 1)):
                    m = meter(I, FakeCache(), i, b, ds)
                    for s in ('total_energy', 'good_sections'):
                        out[(ds, b, i, s)] = I.call(I.getattr(
                            m, 'key_for_cached_stat'), [s], {})
        return out
    for out, v, tr in each(ctx, I, C, go):
        if out == 'raise':
            ctx.violation('distinct-keys', C, 'raises ' + exc_name(v), LOC)
            continue
        for ds in ('D', 'E'):
            ks = [k for q, k in v.items() if q[0] == ds]
            ctx.expect(len(set(ks)) == len(ks), 'distinct-keys', C,
                       'two meters or statistics of one data set share a '
                       'key', LOC)
        both = {k for q, k in v.items() if q[0] == 'D'} & {
            k for q, k in v.items() if q[0] == 'E'}
        ctx.expect(not both, 'distinct-keys-between-datasets', C,
                   'meters of two data sets share the key %s' % (
                       sorted(both)[:1]), LOC)
    ctx.absorb(I)
