"""C19  The scores of a disaggregation are the documented ones."""
import itertools
import math
from .tablecommon import *
from .c10 import T, offset
from .c11 import tfr
from .c12 import name
from .c13 import judge, ident
from .c14 import bounds, EM
from .c15 import Bench, power, empty, FakeCache, Flag, P
from tables import toarr, nocheck, tm

EXPLANATION = (
    'nilmtk.metrics, nilmtk.losses and compute_rmse are interpreted on two '
    'meter groups whose energies and readings are enumerated (meters '
    'missing readings, sharing no section, several chunks, nested groups), '
    'and on arrays and tables; the result is compared with the formula in '
    'the documentation, evaluated in exact arithmetic.')
ASSUMPTIONS = [
    'good_sections, total_energy, power_series and resampling of one meter '
    'are as C05, C10, C12 and C15 decide',
    'sklearn computes the scores its documentation names']
LIMITS = ('Readings are representative numbers; scores that divide by zero '
          'are left unspecified, except for meters without common readings.')
MIN_OBLIGATIONS = 150
LOC = 'nilmtk/metrics.py'
ME = 'nilmtk.metrics.'


def f1(I, a, k):
    if k or len(a) != 2:
        return NotImplemented
    x, y = toarr(I, a[0]), toarr(I, a[1])
    if x is None or y is None:
        return NotImplemented
    nocheck(I, x, y)
    if any(c not in (0, 1) for c in x.cells + y.cells):
        I.throw('ValueError', 'Target is multiclass')
    return f1_of(list(zip(x.cells, y.cells)))


def f1_of(ps):
    tp = sum(1 for p, q in ps if p and q)
    fx = sum(1 for p, q in ps if bool(p) != bool(q))
    return 2.0 * tp / (2 * tp + fx) if tp + fx else 0.0


def r2(I, a, k):
    if k or len(a) != 2:
        return NotImplemented
    x, y = toarr(I, a[0]), toarr(I, a[1])
    if x is None or y is None:
        return NotImplemented
    nocheck(I, x, y)
    return r2_of(x.cells, y.cells)


def r2_of(g, p):
    m = sum(g) / len(g)
    d = sum((v - m) ** 2 for v in g)
    return 1 - sum((v - w) ** 2 for v, w in zip(g, p)) / d


class Groups(Bench):
    """two data sets of meters, readings by (instance, data set)"""

    def __init__(self, ctx):
        Bench.__init__(self, ctx)
        self.I.models['sklearn.metrics.f1_score'] = f1
        self.I.models['sklearn.metrics.r2_score'] = r2
        self.secs, self.energy, self.threshold = {}, {}, {}
        over = self.I.overrides
        for stat, fn in (('good_sections', self.sections),
                         ('total_energy', self.total),
                         ('on_power_threshold', self.thresh)):
            over[EM + stat] = over['nilmtk.electric.Electric.' + stat] = fn

    def key(self, I, m):
        i = pyval(tuple(I.getattr(m, 'identifier')))
        return i[0], i[2]

    def sections(self, I, a, k):
        return AList([tfr(I, *s) for s in self.secs[self.key(I, a[0])]])

    def thresh(self, I, a, k):
        return self.threshold.get(self.key(I, a[0]), 10)

    def total(self, I, a, k):
        key = self.key(I, a[0])
        s = k.get('sections')
        s = None if s is None else tuple(sorted(
            bounds(I, t) for t in I.iterate(s)))
        e = self.energy[key]
        e = e(s) if callable(e) else e
        return Series(list(e.values()), Idx(list(e)))

    def load(self, I, a, k):
        key = self.key(I, a[0])
        k = dict(k)
        self.log.append((key, k))
        data = self.chunks[key]
        if 'sections' not in k or k['sections'] is None:
            tfs = [(-10 ** 6, 10 ** 6)]
        else:
            tfs = [bounds(I, t) for t in I.iterate(k['sections'])]

        def go():
            for s, e in tfs:
                ts = [t for t in sorted(data) if s <= t < e]
                yield power(ts, [data[t] for t in ts]) if ts else empty(
                    [(P, 'active')])
        return AGen(iter(list(go())))

    def meter(self, i, data=(), ds='D', **md):
        I = self.I
        d = {'device_model': 'd',
             'data_location': '/building1/elec/meter%s' % i}
        d.update(md)
        m = I.call(self.cls, [Flag(), aval(d), ident(I, i, 1, ds)], {})
        I.setattr(m, 'cache', FakeCache())
        I.setattr(m, 'appliances', AList([]))
        self.chunks[i, ds] = dict(data)
        return m

    def building(self, ds, data, nest=()):
        """a site meter and sub meters, some of them in a nested group"""
        ms = {i: self.meter(i, data[i], ds, submeter_of=1)
              for i in data}
        out = [self.meter(1, {}, ds, site_meter=True)]
        if nest:
            out.append(self.group(*[ms[i] for i in nest]))
        out += [ms[i] for i in data if i not in nest]
        return self.group(*out)


def close(x, y):
    if isnan(x) or isnan(y):
        return isnan(x) and isnan(y)
    if isinstance(x, Lin):
        x = x.const() if hasattr(x, 'const') else x
    try:
        x, y = float(x), float(y)
    except Exception:
        raise Unk('%s against %s' % (short(x), short(y)))
    return x == y or abs(x - y) <= 1e-9 * max(abs(x), abs(y), 1)


def by_label(v):
    if not isinstance(v, Series):
        raise Unk(short(v))
    return {pyval(l): c for l, c in zip(v.idx.labels, v.vals)}


def scores(ctx, b, C, fn, args, want, rule, what, loc=LOC):
    """the result is the Series want, a dict"""
    I = b.I
    for o, v, tr in each(ctx, I, C, lambda: I.call(fn, args(), {})):
        if o != 'return':
            ctx.violation(rule, C, '%s: %s' % (what, name(v)), loc)
            continue

        def look():
            if not isinstance(want, dict):
                ctx.expect(close(v, want), rule, C, '%s: %s, expected %s' % (
                    what, short(v), want), loc)
                return
            if isinstance(v, Series) and 'bound <function' in repr(
                    v.idx.labels):
                ctx.violation(rule, C, '%s: a label shows a method: %s' % (
                    what, v.idx.labels), loc)
                return
            got = by_label(v)
            ok = set(got) == set(want) and all(
                close(got[k], want[k]) for k in want)
            ctx.expect(ok, rule, C, '%s: %s, expected %s' % (
                what, {k: short(x) for k, x in got.items()}, want), loc)
        guard(ctx, C, look)


def run(ctx):
    b = Groups(ctx)
    assigned(ctx, b)
    fractions(ctx, b)
    errors(ctx, b)
    states(ctx, b)
    ctx.absorb(b.I)
    b = Groups(ctx)
    losses(ctx, b)
    rmse(ctx, b)
    ctx.absorb(b.I)


# ------------------------------------------------------- energy by appliance
def assigned(ctx, b):
    I = b.I
    C = 'error_in_assigned_energy'
    fn = ctx.anchor(I, ME + C)
    S = {2: [(0, 50)], 3: [(100, 200), (300, 400)]}
    A = ('active', 'reactive')
    for types in (A[:1], A):
        for more in (False, True):
            def args():
                p = b.building('P', {2: {}, 3: {}})
                g = b.building('G', {
                    i: {} for i in ((2, 3, 4) if more else (2, 3))})
                for i in (2, 3):
                    b.secs[i, 'P'], b.secs[i, 'G'] = S[i], [(5, 6)]
                    for d, sh in (('P', 0), ('G', 5 - 3 * i)):
                        b.energy[i, d] = lambda s, i=i, sh=sh: {
                            t: float(i * 10 + sh + j) if s == tuple(S[i])
                            else -999.0 for j, t in enumerate(types)}
                b.energy[4, 'G'] = {'active': 1.0}
                b.secs[4, 'G'] = [(0, 1)]
                return [p, g]
            for o, v, tr in each(ctx, I, C, lambda: I.call(fn, args(), {})):
                what = 'AC types %s' % (types,)
                if o != 'return':
                    ctx.violation('assigned', C, '%s: %s' % (what, name(v)),
                                  LOC)
                    continue

                def look():
                    got = by_label(v)
                    ok = set(got) == {2, 3}
                    for i in (2, 3):
                        if not ok:
                            break
                        e = got[i]
                        e = by_label(e) if isinstance(e, Series) else {
                            types[0]: e}
                        ok = set(e) == set(types) and all(close(
                            x, abs(5 - 3 * i)) for x in e.values())
                    ctx.expect(ok, 'assigned', C, '%s: %s' % (
                        what, {k: short(x) for k, x in got.items()}), LOC)
                guard(ctx, C, look)


def fractions(ctx, b):
    I = b.I
    C = 'fraction_energy_assigned_correctly'
    fn = ctx.anchor(I, ME + C)
    tabs = [({2: 30.0}, {2: 10.0}), ({2: 30.0, 3: 70.0}, {2: 70.0, 3: 30.0}),
            ({2: 1.0, 3: 9.0, 4: 10.0}, {2: 4.0, 3: 4.0, 4: 8.0}),
            ({3: 5.0, 2: 5.0}, {2: 1.0, 3: 3.0}),
            ({2: 5.0, 3: 5.0}, {3: 2.0, 2: 1.0, 4: 7.0})]
    for ep, eg in tabs:
        for nest in ((), (2, 3)):
            if nest and len(ep) < 3:
                continue

            def args():
                for d, e in (('P', ep), ('G', eg)):
                    for i in e:
                        b.energy[i, d] = {'active': e[i]}
                    b.energy[1, d] = {'active': 500.0}
                return [b.building('P', {i: {} for i in ep}, nest),
                        b.building('G', {i: {} for i in eg}, nest)]
            cls = [[i for i in ep if i in nest]] if nest else []
            cls += [[i] for i in ep if i not in nest]
            want = sum(min(sum(e[i] for i in c) / sum(e.values())
                           for e in (ep, eg)) for c in cls)
            scores(ctx, b, C, fn, args, want, 'fraction',
                   'energies %s and %s%s' % (
                       ep, eg, ', 2 and 3 in one group' if nest else ''))

    def largest():
        for d, e in (('P', {2: {'active': 10.0, 'apparent': 30.0},
                            3: {'active': 10.0}}),
                     ('G', {2: {'active': 10.0}, 3: {'apparent': 90.0,
                                                     'active': 1.0}})):
            for i in e:
                b.energy[i, d] = e[i]
        return [b.building(d, {2: {}, 3: {}}) for d in 'PG']
    scores(ctx, b, C, fn, largest, 0.35, 'fraction-ac-types',
           'the largest of several AC types')


# -------------------------------------------------------------- power errors
GRID = list(range(0, 60, 10))
TRUTH = {2: [5.0, 7, 0, 3, 2, 8], 3: [100.0, 20, 30, 0, 6, 50]}
GUESS = {2: [4.0, 9, 1, 3, 0, 0], 3: [90.0, 35, 30, 1, 2, 70]}


def at(vals, ts=GRID, miss=()):
    return {t: v for t, v in zip(ts, vals) if t not in miss}


# readings of the prediction and the truth, sections of the prediction
SITUATIONS = [
    ('one section', (), (), [(0, 60)]),
    ('two sections', (), (), [(0, 30), (30, 60)]),
    ('uneven sections', (), (), [(0, 20), (20, 60)]),
    ('part of the time', (), (), [(10, 40)]),
    ('a missing truth', (), (20,), [(0, 60)]),
    ('two missing', (), (10, 40), [(0, 60)]),
    ('no truth in the first section', (), (0, 10, 20), [(0, 30), (30, 60)]),
    ('a section of one reading', (), (), [(0, 10), (10, 60)]),
    ('readings that alternate', (20, 30), (0, 10, 40, 50), [(0, 60)]),
    ('one reading in common', (), (0, 20, 30, 40, 50), [(0, 60)]),
    ('one reading in common, in the second section', (),
     (0, 10, 20, 30, 50), [(0, 30), (30, 60)]),
    ('gaps in the prediction', (20,), (), [(0, 60)]),
    ('gaps in both', (20,), (10, 30), [(0, 60)]),
    ('a section that alternates', (10,), (0, 20), [(0, 30), (30, 60)])]


def common(p, g, secs):
    """the pairs of readings of each section"""
    out = []
    for s, e in secs:
        ts = [t for t in sorted(p) if s <= t < e]
        if len(ts) < 2:
            continue
        # the truth is loaded up to the last reading of the prediction
        c = [(t, p[t], g[t]) for t in ts if t in g and t < ts[-1]]
        last = (ts[-1], p[ts[-1]], g[ts[-1]]) if ts[-1] in g else None
        out.append((c, last))
    return out


def errors(ctx, b):
    I = b.I
    for C, f in (('mean_normalized_error_power', lambda ps:
                  sum(abs(x - y) for x, y in ps) / sum(y for x, y in ps)
                  if ps else None),
                 ('rms_error_power', lambda ps: math.sqrt(
                     sum((x - y) ** 2 for x, y in ps) / len(ps))
                  if ps else NAN)):
        fn = ctx.anchor(I, ME + C)
        for what, mp, mg, secs in SITUATIONS:
            if mp and C != 'rms_error_power':
                # the truth where nothing is predicted may count or not
                continue

            def args():
                for i in (2, 3):
                    b.secs[i, 'P'], b.secs[i, 'G'] = secs, [(0, 1)]
                return [b.building('P', {i: at(GUESS[i], miss=mp)
                                         for i in (2, 3)}),
                        b.building('G', {i: at(TRUTH[i], miss=mg)
                                         for i in (2, 3)})]
            want = {}
            for i in (2, 3):
                cs = common(at(GUESS[i], miss=mp), at(TRUTH[i], miss=mg),
                            secs)
                want[i] = f([(x, y) for c, last in cs for t, x, y in c])
            scores(ctx, b, C, fn, args, want, 'power-error', what)

        def apart():
            for i in (2, 3):
                b.secs[i, 'P'], b.secs[i, 'G'] = [(0, 60)], [(0, 1)]
            return [b.building('P', {i: at(GUESS[i]) for i in (2, 3)}),
                    b.building('G', {2: at(TRUTH[2], range(200, 260, 10)),
                                     3: {}})]
        scores(ctx, b, C, fn, apart, {2: NAN, 3: NAN}, 'power-error',
               'no reading in common')

        def none():
            for i in (2, 3):
                b.secs[i, 'P'] = b.secs[i, 'G'] = []
            return [b.building('P', {2: {}, 3: {}}),
                    b.building('G', {2: {}, 3: {}})]
        scores(ctx, b, C, fn, none, {2: NAN, 3: NAN}, 'power-error',
               'no good section')

        def single():
            b.secs[2, 'P'] = [(0, 60)]
            return [b.building(d, {2: at(v)}) for d, v in (
                ('P', GUESS[2]), ('G', TRUTH[2]))]
        cs = common(at(GUESS[2]), at(TRUTH[2]), [(0, 60)])
        scores(ctx, b, C, fn, single, {2: f([(x, y) for c, last in cs
                                            for t, x, y in c])},
               'power-error', 'a single meter')


# ------------------------------------------------------------------ F1 score
def states(ctx, b):
    I = b.I
    C = 'f1_score'
    fn = ctx.anchor(I, ME + C)
    for thr in (2, 10):
        for what, mp, mg, secs in SITUATIONS:
            warned = []

            def args():
                for i in (2, 3):
                    b.secs[i, 'P'], b.secs[i, 'G'] = secs, [(0, 1)]
                    b.threshold[i, 'P'] = b.threshold[i, 'G'] = thr
                return [b.building('P', {i: at(GUESS[i], miss=mp)
                                         for i in (2, 3)}),
                        b.building('G', {i: at(TRUTH[i], miss=mg)
                                         for i in (2, 3)})]
            want = {}
            for i in (2, 3):
                cs = [[(x >= thr, y >= thr) for t, x, y in c] for c, last in
                      common(at(GUESS[i], miss=mp), at(TRUTH[i], miss=mg),
                             secs)]
                n = sum(map(len, cs))
                want[i] = sum(f1_of(c) * len(c) for c in cs) / n \
                    if n else NAN
            scores(ctx, b, C, fn, args, want, 'f1', '%s, threshold %s' % (
                what, thr))

    def apart():
        for i in (2, 3):
            b.secs[i, 'P'], b.secs[i, 'G'] = [(0, 60)], [(0, 1)]
        return [b.building('P', {i: at(GUESS[i]) for i in (2, 3)}),
                b.building('G', {2: at(TRUTH[2], range(200, 260, 10)),
                                 3: {}})]
    scores(ctx, b, C, fn, apart, {2: NAN, 3: NAN}, 'f1',
           'no reading in common')


# -------------------------------------------------------------------- losses
def losses(ctx, b):
    I = b.I
    LO = 'nilmtk.losses.'
    L = 'nilmtk/losses.py'
    F = {'mae': lambda g, p: sum(abs(x - y) for x, y in zip(g, p)) / len(g),
         'rmse': lambda g, p: math.sqrt(sum((x - y) ** 2 for x, y in zip(
             g, p)) / len(g)),
         'f1score': lambda g, p: f1_of([(x >= 10, y >= 10)
                                        for x, y in zip(g, p)]),
         'relative_error': lambda g, p: sum(
             abs(x - y) / (1 + y) for x, y in zip(g, p)) / len(g),
         'r2score': r2_of,
         'nde': lambda g, p: math.sqrt(sum((x - y) ** 2 for x, y in zip(
             g, p)) / sum(x * x for x in g)),
         'nep': lambda g, p: sum(abs(x - y) for x, y in zip(g, p)) / sum(g)}
    tabs = [([1.0, 20, 3], [4.0, 20, 0]), ([10.0, 9, 11], [10.0, 10, 9]),
            ([5.0, 7], [7.0, 5]), ([3.0, 3, 30, 40], [30.0, 3, 3, 40]),
            ([0.0, 1, 2], [2.0, 1, 0]), ([12.0, 40], [12.0, 40]),
            (TRUTH[3], GUESS[3]), (TRUTH[2], GUESS[2])]
    for C, f in F.items():
        fn = ctx.anchor(I, LO + C)
        for g, p in tabs:
            for kind in ('series', 'array'):
                def args():
                    if kind == 'array':
                        return [Arr(list(g)), Arr(list(p))]
                    ix = [T(10 * i) for i in range(len(g))]
                    return [Series(list(g), Idx(ix, dt=True)),
                            Series(list(p), Idx(ix, dt=True))]
                scores(ctx, b, C, fn, args, f(g, p), 'loss',
                       'truth %s, prediction %s' % (g, p), L)


# -------------------------------------------------------------- compute_rmse
def rmse(ctx, b):
    I = b.I
    C = 'compute_rmse'
    fn = ctx.anchor(I, 'nilmtk.utils.' + C)
    L = 'nilmtk/utils.py'

    def rm(ps):
        return math.sqrt(sum((x - y) ** 2 for x, y in ps) / len(ps)) \
            if ps else NAN
    T1 = [GRID, GRID, GRID]
    for labels, want in ((['a', 'b', 'c'], ['a', 'b', 'c']),
                         ([3, 'b', 1], [3, 'b', 1]),
                         (['a'], ['a'])):
        for hp, hg in itertools.product(((), (1,), (0, 5)), repeat=2):
            def table(vals, holes, lab=None):
                return Frame(Idx([T(t) for t in GRID], dt=True),
                             Idx(list(lab or labels)),
                             [[NAN if j in holes else float(v + 3 * i)
                               for j, v in enumerate(vals)]
                              for i, x in enumerate(labels)])
            for pretty in (True, False):
                for other in (False, True):
                    w = {}
                    for i, l in enumerate(want):
                        w[l] = rm([(x, y) for j, (x, y) in enumerate(zip(
                            TRUTH[2], GUESS[3]))
                            if j not in hp and j not in hg])
                    # columns are paired by position
                    lab = ['x%d' % i for i in range(len(labels))] \
                        if other else labels
                    scores(ctx, b, C, fn, lambda: [
                        table(TRUTH[2], hg), table(GUESS[3], hp, lab),
                        pretty], w, 'rmse',
                        'columns %s and %s, holes %s and %s' % (
                            labels, lab, hg, hp), L)
    # rows are paired by time
    for ts in (GRID[::-1], GRID[2:] + [900, 910], [t + 5 for t in GRID]):
        def args():
            return [Frame(Idx([T(t) for t in GRID], dt=True), Idx(['a']),
                          [list(TRUTH[2])]),
                    Frame(Idx([T(t) for t in ts], dt=True), Idx(['a']),
                          [list(GUESS[2])])]
        g, p = at(TRUTH[2]), dict(zip(ts, GUESS[2]))
        scores(ctx, b, C, fn, args, {'a': rm([(g[t], p[t]) for t in g
                                              if t in p])}, 'rmse-times',
               'prediction at %s' % ts, L)
    # labels
    app = lambda i, t: aval({'type': t, 'instance': i})
    A = I.get('nilmtk.appliance.Appliance')
    types = {t: {'type': t, 'categories': {}} for t in ('fridge', 'kettle')}
    for kinds, want in (
            (('fridge', 'kettle'), ['Fridge', 'Kettle']),
            (('fridge', 'fridge'), ['Fridge (1, 2)', 'Fridge (1, 3)']),
            (('fridge', 'kettle', 'fridge'),
             ['Fridge (1, 2)', 'Kettle', 'Fridge (1, 4)'])):
        def args():
            I.setattr(A, 'appliance_types', aval(types))
            ms = []
            for i, t in enumerate(kinds):
                m = b.meter(i + 2)
                I.setattr(m, 'appliances', AList([I.call(
                    A, [app(1, t)], {})]))
                ms.append(m)
            return [Frame(Idx([T(t) for t in GRID], dt=True), Idx(ms),
                          [[float(v + 2 * i) for v in TRUTH[2]]
                           for i in range(len(ms))]),
                    Frame(Idx([T(t) for t in GRID], dt=True), Idx(ms),
                          [[float(v + 5 * i) for v in GUESS[2]]
                           for i in range(len(ms))])]
        scores(ctx, b, C, fn, args, {
            l: rm([(x, y + 3 * i) for x, y in zip(TRUTH[2], GUESS[2])])
            for i, l in enumerate(want)}, 'rmse-labels',
            'appliances %s' % (kinds,), L)
