"""C15  The power of a meter as a series, and when its appliances are on."""
import itertools
from fractions import Fraction
from .tablecommon import *
from .c10 import T, offset
from .c11 import FakeCache, tfr
from .c12 import device, ident, name
from .c13 import judge, setup
from .c14 import (M, group, stand, unstand, Flag, bounds, EM, chunks_of)
from graphmodel import GM

EXPLANATION = (
    'load_series, power_series_all_data, when_on, get_activations, '
    'switch_times, activity_histogram and align_two_meters are interpreted '
    'over the abstract domain for chunks of every on/off/missing pattern of '
    'up to six readings, with named or classed readings and irregular time '
    'stamps, and compared with the definition of each.')
ASSUMPTIONS = [
    'ElecMeter.load is as C12 decides; here it hands out the chunks of the '
    'scenario',
    'a reading is below, at or above the threshold, or missing: what is done '
    'with readings of one class does not depend on which they are']
MIN_OBLIGATIONS = 400
LOC = 'nilmtk/electric.py'
EL = 'nilmtk.electric.'
P = 'power'


class Bench:
    """ElecMeters which load the chunks they are told to"""

    def __init__(self, ctx):
        self.I = I = ctx.interp(models=dict(TM, **GM))
        self.log = []
        self.chunks = {}
        setup(I)
        cls = I.get('nilmtk.elecmeter.ElecMeter')
        self.cls = cls
        I.setattr(cls, 'meter_devices', aval({'d': device(
            [(P, 'active')], sample_period=10, max_sample_period=30)}))
        I.overrides[EM + 'load'] = self.load

    def load(self, I, a, k):
        i = tuple(I.getattr(a[0], 'identifier'))[0]
        self.log.append((i, dict(k)))
        cs = self.chunks[i]
        if callable(cs):
            cs = cs(I, a[1:], dict(k))
        return AGen(iter(list(cs)))

    def meter(self, i, chunks=(), apps=(), **md):
        I = self.I
        d = {'device_model': 'd',
             'data_location': '/building1/elec/meter%s' % i}
        d.update(md)
        m = I.call(self.cls, [Flag(), aval(d), ident(I, i, 1, 'D')], {})
        I.setattr(m, 'cache', FakeCache())
        A = I.get('nilmtk.appliance.Appliance')
        I.setattr(m, 'appliances', AList([I.call(A, [aval(x)], {})
                                          for x in apps]))
        self.chunks[i] = chunks
        return m

    def group(self, *ms):
        return self.I.call(self.I.get('nilmtk.metergroup.MeterGroup'),
                           [AList(list(ms))], {})


def chunk(ts, cols, pre='r', holes=(), tf=None, la=None):
    f = mkframe([T(x) for x in ts], cols, pre, holes)
    if tf is not None:
        f.attrs['timeframe'] = tf
    if la is not None:
        f.attrs['look_ahead'] = la
    return f


def empty(cols=(), tf=None):
    f = Frame(Idx([], dt=bool(cols)), Idx(list(cols), names=[
        'physical_quantity', 'type'] if cols else None),
        [[] for _ in cols])
    if tf is not None:
        f.attrs['timeframe'] = tf
    return f


def power(ts, cells, nm=(P, 'active')):
    """a chunk of one power column with the given cells"""
    return Frame(Idx([T(x) for x in ts], dt=True),
                 Idx([nm], names=['physical_quantity', 'type']),
                 [list(cells)])


def series(ts, cells):
    return Series(list(cells), Idx([T(x) for x in ts], dt=True),
                  name=(P, 'active'))


def pairs(s):
    """[(second, cell)] of a series"""
    if not isinstance(s, Series):
        raise Unk(short(s))
    return [(offset(l), c) for l, c in zip(s.idx.labels, s.vals)]


def run(ctx):
    b = Bench(ctx)
    the_series(ctx, b)
    all_data(ctx, b)
    thresholds(ctx, b)
    on(ctx, b)
    activations(ctx, b)
    of_meter(ctx, b)
    switches(ctx, b)
    histogram(ctx, b)
    aligned(ctx, b)
    ctx.absorb(b.I)


def expect_series(ctx, I, C, s, want, rule, what, nm=None, kind=Series):
    """s: abstract series; want [(second, cell)]"""
    def go():
        if not isinstance(s, Series):
            ctx.expect(False, rule, C, '%s: %s is not a pandas.Series' % (
                what, short(s)), LOC)
            return
        got = pairs(s)
        ok = [x for x, _ in got] == [x for x, _ in want] and all(
            eqv(I, x, y) for (_, x), (_, y) in zip(got, want))
        ctx.expect(ok, rule, C, '%s: %s, expected %s' % (
            what, got, want), LOC)
        if nm is not None:
            ctx.expect(pyval(s.name) == nm, rule + '-name', C,
                       '%s: the series is called %s, not %s' % (
                           what, short(s.name), nm), LOC)
    guard(ctx, C, go)


# -- the series of a meter

def the_series(ctx, b):
    I = b.I
    PA, PR, PX = (P, 'active'), (P, 'reactive'), (P, 'apparent')
    V, EA = ('voltage', ''), ('energy', 'active')
    shapes = []
    for cols, pq, ac in (
            ([PA], P, 'best'), ([PA, PX], P, None), ([PX, PA, PR], P, None),
            ([PA, V], 'voltage', None), ([EA, PA], 'energy', None),
            ([PA, EA], P, 'active')):
        for n in (1, 3):
            shapes.append((cols, pq, ac, n))
    for cols, pq, ac, n in shapes:
        mine = [c for c in cols if c[0] == pq]
        hs = [(), ((0, cols.index(mine[0])),), tuple(
            (n - 1, cols.index(c)) for c in mine)]
        for holes in hs:
            C = 'Electric.load_series'
            ts = [0, 10, 25][:n]

            def go():
                tf = tfr(I, 0, 40)
                la = mkframe([T(50)], cols, 'la')
                b.log.clear()
                m = b.meter(1, [chunk(ts, cols, 'r', holes, tf, la),
                                chunk([60], cols, 's')])
                kw = dict(physical_quantity=pq, sections='SEC', chunksize=7)
                if ac:
                    kw['ac_type'] = ac
                out = list(I.iterate(I.call(I.getattr(m, 'load_series'), [],
                                            dict(kw))))
                return (out, tf, la, kw)
            for o, v, tr in each(ctx, I, C, go):
                if o != 'return':
                    ctx.violation('series', C, '%s of %s: %s' % (
                        pq, cols, name(v)), LOC)
                    continue
                out, tf, la, kw = v
                what = '%s of columns %s, readings missing at %s' % (
                    pq, cols, list(holes))
                ctx.expect(len(out) == 2, 'series-chunks', C,
                           '%s: %d chunks from 2' % (what, len(out)), LOC)
                if len(out) != 2:
                    continue
                for s, t0, pre, hl in ((out[0], ts, 'r', holes),
                                       (out[1], [60], 's', ())):
                    want = []
                    for i, t in enumerate(t0):
                        cs = [NAN if (i, cols.index(c)) in hl else
                              atom('num', '%s%d.%d' % (pre, i,
                                                       cols.index(c)))
                              for c in mine]
                        if any(isnan(c) for c in cs):
                            want.append((t, NAN))
                        else:
                            x = cs[0]
                            for c in cs[1:]:
                                x = x.add(c)
                            want.append((t, x))
                    expect_series(ctx, I, C, s, want, 'series', what,
                                  (pq, '+'.join(c[1] for c in mine)))
                s = out[0]
                if isinstance(s, Series):
                    ctx.expect(s.attrs.get('timeframe') is tf and
                               s.attrs.get('look_ahead') is la,
                               'series-attributes', C,
                               '%s: the series does not carry the timeframe '
                               'and look_ahead of its chunk' % what, LOC)
                i, k = b.log[0]
                ctx.expect(len(b.log) == 1 and
                           {x: y for x, y in k.items()} == kw,
                           'series-request', C,
                           '%s: load was asked for %s, not %s' % (
                               what, k, kw), LOC)
    # an empty chunk is an empty series
    for cols in ((), (PA,)):
        C = 'Electric.load_series'

        def go():
            tf = tfr(I, 5, 6)
            m = b.meter(1, [chunk([0], [PA]), empty(cols, tf),
                            chunk([20], [PA], 's')])
            return (list(I.iterate(I.call(I.getattr(m, 'power_series'), [],
                                          {}))), tf)
        for o, v, tr in each(ctx, I, C, go):
            if o != 'return':
                ctx.violation('series-empty', C, 'an empty chunk: %s'
                              % name(v), LOC)
                continue
            out, tf = v
            ok = len(out) == 3 and isinstance(out[1], Series) and \
                not out[1].vals and out[1].attrs.get('timeframe') is tf
            ctx.expect(ok, 'series-empty', C, 'an empty chunk %s became %s, '
                       'not an empty pandas.Series for its time' % (
                           list(cols), short(out[1]) if len(out) == 3
                           else '%d chunks' % len(out)), LOC)
            if len(out) == 3:
                expect_series(ctx, I, C, out[2], [(20, atom(
                    'num', 's0.0'))], 'series-empty',
                    'after an empty chunk')
    # power_series
    for kw, want in (({}, {'ac_type': 'best'}),
                     ({'ac_type': 'apparent'}, {'ac_type': 'apparent'}),
                     ({'ac_type': None}, {'ac_type': None}),
                     ({'sections': 'SEC', 'chunksize': 3},
                      {'ac_type': 'best', 'sections': 'SEC',
                       'chunksize': 3})):
        C = 'Electric.power_series'

        def go():
            b.log.clear()
            m = b.meter(1, [chunk([0], [PA])])
            n = len(list(I.iterate(I.call(I.getattr(m, 'power_series'), [],
                                          dict(kw)))))
            return (n, dict(b.log[0][1]))
        w = dict(want, physical_quantity=P)
        for o, v, tr in each(ctx, I, C, go):
            ctx.expect(o == 'return' and v == (1, w), 'power', C,
                       'power_series(%s) loads %s, expected %s' % (
                           kw, v if o == 'return' else name(v), (1, w)), LOC)


def all_data(ctx, b):
    """chunks joined, rows repeated at the borders kept once"""
    I = b.I
    C = 'Electric.power_series_all_data'
    A = [[0, 10], [20]], [[0, 10], [10, 20]], [[0], [0, 10]], [[0], []], \
        [[], [0, 10], [], [20]], [[0, 10, 20]], [], [[]], [[], []], \
        [[0], [0]], [[0, 10], [10, 20, 30], [30, 40]], [[0], [0], [5]], \
        [[0, 10], [10], [10, 20]], [[0, 10], [], [10, 20]]
    for parts in A:
        def go():
            cs = []
            for ts in parts:
                cs.append(Frame(Idx([T(x) for x in ts], dt=True),
                                Idx([(P, 'active')]),
                                [[atom('num', 'p%d' % x) for x in ts]])
                          if ts else empty([(P, 'active')]))
            m = b.meter(1, cs)
            return I.call(I.getattr(m, C.split('.')[1]), [], {})
        rows = []
        for ts in parts:
            for x in ts:
                if x not in rows:
                    rows.append(x)
        for o, v, tr in each(ctx, I, C, go):
            what = 'chunks at %s' % parts
            if o != 'return':
                ctx.violation('all-data', C, '%s: %s' % (what, name(v)), LOC)
            elif not rows:
                ctx.expect(v is None, 'all-data', C, '%s: %s instead of '
                           'None' % (what, short(v)), LOC)
            else:
                expect_series(ctx, I, C, v, [
                    (x, atom('num', 'p%d' % x)) for x in rows],
                    'all-data', what)


# -- thresholds

APPS = [
    ({'type': 'fridge', 'instance': 1}, 50, 'fridge default'),
    ({'type': 'fridge', 'instance': 1, 'on_power_threshold': 7}, 7, ''),
    ({'type': 'kettle', 'instance': 1, 'on_power_threshold': 30,
      'nominal_consumption': {'on_power': 20}}, 30, ''),
    ({'type': 'kettle', 'instance': 1,
      'nominal_consumption': {'on_power': 20}}, 20, ''),
    ({'type': 'kettle', 'instance': 1, 'nominal_consumption': {}}, 10, ''),
    ({'type': 'kettle', 'instance': 1}, 10, ''),
    ({'type': 'kettle', 'instance': 1, 'on_power_threshold': 0}, 0, ''),
]
TYPES = {'fridge': {'on_power_threshold': 50, 'min_on_duration': 60,
                    'min_off_duration': 12, 'categories': {}},
         'kettle': {'min_on_duration': 10, 'categories': {}},
         'light': {'categories': {}}}


def types(I):
    from .c13 import setup
    I.setattr(I.get('nilmtk.appliance.Appliance'), 'appliance_types',
              aval(TYPES))


def thresholds(ctx, b):
    I = b.I
    combos = [()] + [(i,) for i in range(len(APPS))] + list(
        itertools.permutations(range(len(APPS)), 2))
    for g in (False, True):
        for c in combos:
            if g and len(c) != 2:
                continue

            def go():
                types(I)
                if g:
                    m = b.group(b.meter(1, apps=[APPS[c[0]][0]]),
                                b.meter(2, apps=[dict(APPS[c[1]][0],
                                                      instance=2)]))
                else:
                    m = b.meter(1, apps=[APPS[i][0] for i in c])
                return I.call(I.getattr(m, 'on_power_threshold'), [], {})
            w = min([APPS[i][1] for i in c] or [10])
            judge(ctx, I, 'Electric.on_power_threshold', go, w, 'threshold',
                  'appliances %s' % [APPS[i][0] for i in c])
    for nm in ('min_on_duration', 'min_off_duration'):
        for c in [x for n in range(4) for x in itertools.permutations(
                ('fridge', 'kettle', 'light'), n)]:
            def go():
                types(I)
                m = b.meter(1, apps=[{'type': t, 'instance': 1, nm: 999}
                                     for t in c])
                v = I.call(I.getattr(m, nm), [], {})
                return v
            w = max([TYPES[t][nm] for t in c if nm in TYPES[t]] or [0])
            judge(ctx, I, 'Electric.' + nm, go, w, 'duration',
                  'appliances of types %s' % (c,))


# -- on and off

LOW, AT, HIGH, MISS = '.', '=', '#', 'o'


def readings(pat, thr=50):
    out = []
    for i, c in enumerate(pat):
        out.append({'.': 1 + i, '=': thr, '#': 1000 + i,
                    'o': NAN}[c])
    return out


def on(ctx, b):
    I = b.I
    C = 'Electric.when_on'
    for pat in itertools.product('.=#o', repeat=3):
        for own in (False, True):
            def go():
                types(I)
                b.log.clear()
                m = b.meter(1, [power([0, 10, 20], readings(pat)),
                                power([30], [1])],
                            [{'type': 'fridge', 'instance': 1,
                              'on_power_threshold': 50 if own else 9999}])
                kw = {'sections': 'SEC'}
                if not own:
                    kw['on_power_threshold'] = 50
                r = list(I.iterate(I.call(I.getattr(m, 'when_on'), [], kw)))
                return (r, dict(b.log[0][1]))
            want = [(i * 10, c in '=#') for i, c in enumerate(pat)]
            for o, v, tr in each(ctx, I, C, go):
                if o != 'return':
                    ctx.violation('on', C, name(v), LOC)
                    continue
                r, k = v
                ctx.expect(len(r) == 2 and k.get('sections') == 'SEC' and
                           'on_power_threshold' not in k, 'on-request', C,
                           '%d chunks from 2, loaded with %s' % (len(r), k),
                           LOC)
                expect_series(ctx, I, C, r[0], want, 'on',
                              'readings %s with threshold 50' %
                              ''.join(pat))
    for thr in (0, 50.5):
        def go():
            m = b.meter(1, [power([0, 10], [0, 51])],
                        [{'type': 'fridge', 'instance': 1}])
            return list(I.iterate(I.call(I.getattr(m, 'when_on'), [],
                                         {'on_power_threshold': thr})))
        for o, v, tr in each(ctx, I, C, go):
            if o == 'return' and v:
                expect_series(ctx, I, C, v[0], [(0, 0 >= thr),
                                                (10, 51 >= thr)], 'on',
                              'threshold %s asked for' % thr)
            else:
                ctx.violation('on', C, name(v) if o != 'return' else
                              'no chunks', LOC)


def runs(pat, ts, min_off, min_on, border):
    """row ranges of the activations of a chunk, by definition"""
    onr = [c in '=#' for c in pat]
    n = len(pat)
    rs = []
    i = 0
    while i < n:
        if onr[i]:
            j = i
            while j < n and onr[j]:
                j += 1
            if i > 0 and j < n:
                rs.append([i, j])
            i = j
        else:
            i += 1
    if min_off > 0:
        ms = []
        for r in rs:
            if ms and ts[r[0]] - ts[ms[-1][1]] < min_off:
                ms[-1][1] = r[1]
            else:
                ms.append(list(r))
        rs = ms
    out = []
    for s, e in rs:
        if ts[e] - ts[s] < min_on:
            continue
        rows = range(max(0, s - 1 - border), min(n, e + border))
        if any(pat[r] == 'o' for r in rows):
            continue
        out.append(list(rows))
    return out


def activations(ctx, b):
    I = b.I
    C = 'get_activations'
    fn = ctx.anchor(I, EL + 'get_activations')
    thorough = ctx.tier == 'thorough'
    cases = []
    reg = [0, 10, 20, 30, 40, 50, 60, 70]
    irr = [0, 5, 30, 31, 60, 100, 101, 130]
    n = 7 if thorough else 6
    for k in range(0, n + 1):
        for pat in itertools.product('.#', repeat=k):
            p = ''.join(pat)
            for ts, mo, mn, bd in (
                    (reg, 0, 0, 1), (reg, 0, 0, 0), (irr, 29, 0, 1),
                    (irr, 30, 2, 0), (irr, 0, 25, 2), (reg, 11, 20, 1)):
                if k < 3 and (mo, mn, bd) != (0, 0, 1):
                    continue
                cases.append((p, ts, mo, mn, bd))
    for k in range(1, 6 if thorough else 5):
        for pat in itertools.product('.#o=', repeat=k):
            p = ''.join(pat)
            if 'o' in p or '=' in p:
                cases.append((p, reg, 0, 0, 1))
                cases.append((p, irr, 26, 0, 0))
    for p in ('.##.o.##.', '.#..#...#.', '.#.#.#.#.', '#.#.#.#.#',
              '...###...##..', '.#.o#.#..#.', '.##..#.....#..'):
        for mo in (0, 9, 10, 11, 20, 21, 1000):
            for mn in (0, 10, 11, 20, 31, 1000):
                for bd in (0, 1, 3, 50):
                    cases.append((p, [10 * i for i in range(20)], mo, mn,
                                  bd))
    # as documented when nothing is said: no limits, one row of border, 5 W
    fine = [Fraction(i, 4) for i in range(12)]
    for p in ('.#.', '..##..', '.#.#.', '..#.#..#..', '.o.#..', '....#....'):
        cases.append((p, fine, None, None, None))
    for p, ts, mo, mn, bd in cases:
        ts = ts[:len(p)]
        rd = readings(p) if mo is not None else [
            {'.': 4.9, '#': 5.}.get(c, r) for c, r in zip(p, readings(p))]
        kw = {} if mo is None else {
            'min_off_duration': mo, 'min_on_duration': mn, 'border': bd,
            'on_power_threshold': 50}

        def go():
            s = series(ts, rd)
            before = s.d_key()
            r = I.call(fn, [s], dict(kw))
            return (list(I.iterate(r)), before == s.d_key())
        want = runs(p, ts, mo or 0, mn or 0, 1 if bd is None else bd)
        for o, v, tr in each(ctx, I, C, go):
            what = '%s at %s, min_off %s min_on %s border %s' % (
                p, ts, mo, mn, bd)
            if o != 'return':
                ctx.violation('activations', C, '%s: %s' % (what, name(v)),
                              LOC)
                continue

            def look():
                got = [pairs(s) for s in v[0]]
                w = [[(ts[i], rd[i]) for i in r] for r in want]
                ctx.expect(got == w, 'activations', C,
                           '%s: found %s, expected %s' % (what, got, w), LOC)
                ctx.expect(v[1], 'chunk-unchanged', C,
                           '%s: the chunk was altered' % what, LOC)
            guard(ctx, C, look)
    ctx.sample('get_activations: %d patterns and settings' % len(cases))


def of_meter(ctx, b):
    I = b.I
    C = 'Electric.get_activations'
    p1, p2 = '.##..#.#.', '.#....####.#.##.'
    for ask in ({}, {'on_power_threshold': 50}, {'min_on_duration': 15},
                {'min_off_duration': 25}, {'border': 0},
                {'on_power_threshold': 0}, {'min_off_duration': 0},
                {'on_power_threshold': 2000}, {'min_on_duration': 0,
                                               'min_off_duration': 0},
                {'resample': False}, {'sections': 'SEC', 'sample_period': 6},
                {'min_on_duration': 0, 'min_off_duration': 25,
                 'border': 2}):
        for typ in ('fridge', 'kettle', 'light'):
            def go():
                types(I)
                b.log.clear()
                ts = [10 * i for i in range(20)]
                m = b.meter(1, [power(ts[:len(p1)], readings(p1)),
                                empty([(P, 'active')]),
                                power([500 + t for t in ts[:len(p2)]],
                                      readings(p2))],
                            [{'type': typ, 'instance': 1}])
                r = I.call(I.getattr(m, 'get_activations'), [], dict(ask))
                return ([pairs(s) for s in I.iterate(r)],
                        dict(b.log[0][1]), len(b.log))
            mo = ask.get('min_off_duration', TYPES[typ].get(
                'min_off_duration', 0))
            mn = ask.get('min_on_duration', TYPES[typ].get(
                'min_on_duration', 0))
            thr = ask.get('on_power_threshold', TYPES[typ].get(
                'on_power_threshold', 10))
            want = []
            for p, t0 in ((p1, 0), (p2, 500)):
                ts = [t0 + 10 * i for i in range(len(p))]
                rd = readings(p)
                pp = ''.join('#' if x >= thr else '.' for x in rd)
                for r in runs(pp, ts, mo, mn, ask.get('border', 1)):
                    want.append([(ts[i], rd[i]) for i in r])
            kw = dict({'resample': True, 'physical_quantity': P,
                       'ac_type': 'best'}, **{
                x: y for x, y in ask.items() if x in (
                    'resample', 'sections', 'sample_period')})
            for o, v, tr in each(ctx, I, C, go):
                what = '%s of a %s' % (ask, typ)
                if o != 'return':
                    ctx.violation('of-meter', C, '%s: %s' % (
                        what, name(v)), LOC)
                    continue
                ctx.expect(v[0] == want, 'of-meter', C,
                           '%s: %s, expected %s' % (what, v[0], want), LOC)
                ctx.expect(v[1:] == (kw, 1), 'of-meter-request', C,
                           '%s: loads %s, expected %s' % (what, v[1], kw),
                           LOC)


def switches(ctx, b):
    I = b.I
    C = 'Electric.switch_times'
    for vals in itertools.product((0, 40, 41, 100), repeat=3):
        for extra, thr in ((0, None), (150, 60), (NAN, None),
                           ('middle', None)):
            cells = list(vals) + [extra]
            if extra == 'middle':
                cells = [vals[0], NAN] + list(vals[1:])

            def go():
                m = b.meter(1, [power([0, 10, 20, 30], cells),
                                power([40, 50], [500, 600]),
                                power([60], [5])])
                kw = {} if thr is None else {'threshold': thr}
                r = I.call(I.getattr(m, 'switch_times'), [], kw)
                return list(I.iterate(r))
            w = []
            t = 40 if thr is None else thr
            for i in range(1, 4):
                x, y = cells[i - 1], cells[i]
                if not isnan(x) and not isnan(y) and abs(y - x) > t:
                    w.append(10 * i)
            w.append(50)
            for o, v, tr in each(ctx, I, C, go):
                what = 'readings %s, threshold %s' % (cells, t)
                if o != 'return':
                    ctx.violation('switches', C, '%s: %s' % (
                        what, name(v)), LOC)
                    continue
                if not all(isinstance(x, Lin) and x.kind == 'ts'
                           for x in v):
                    ctx.violation('switches', C, '%s: the result holds '
                                  '%s, which are not time stamps' % (
                                      what, short(AList(v))), LOC)
                    continue
                ctx.expect([offset(x) for x in v] == w, 'switches', C,
                           '%s: %s, expected %s' % (
                               what, [offset(x) for x in v], w), LOC)


def histogram(ctx, b):
    I = b.I
    C = 'Electric.activity_histogram'
    DAY = 86400
    # time stamps of the scenario count from a midnight
    from .c10 import T as TT

    def build(spec, bin_, period):
        out = []
        for start, pat in spec:
            ts = [start + i * bin_ for i in range(len(pat))]
            out.append(power(ts, readings(pat)))
        return out

    def want(spec, bin_, period):
        h = [0] * (period // bin_)
        for start, pat in spec:
            if len(pat) < 5:
                continue
            for i, c in enumerate(pat):
                if c in '=#':
                    h[((start + i * bin_) % period) // bin_] += 1
        return h
    H = 3600
    cases = [
        ('D', 'H', [(0, '#' * 24)]), ('D', 'H', [(5 * H, '.#.##')]),
        ('D', 'H', [(22 * H, '####.#')]),
        ('D', 'H', [(22 * H, '#.#o##'), (3 * DAY + H, '#####')]),
        ('D', '6H', [(12 * H, '##.#.')]),
        ('H', '10T', [(50 * 60, '#.##.##.#')]),
        ('D', 'D', [(0, '#.##.')]),
        ('D', 'H', [(0, 'ooooo')]), ('D', 'H', [(47 * H, '#.#.#.#')]),
        ('D', '12H', [(0, '######'), (10 * DAY, '.#.#.')]),
        ('D', 'H', []), ('D', 'H', [(H, '####'), (2 * DAY, '#####')]),
    ]
    for period, bin_, spec in cases:
        ps, bs = (({'D': DAY, 'H': H, '6H': 6 * H, '10T': 600,
                    '12H': 12 * H}[x]) for x in (period, bin_))

        def go():
            b.log.clear()
            m = b.meter(1, build(spec, bs, ps), [
                {'type': 'fridge', 'instance': 1, 'on_power_threshold': 50}])
            kw = {} if (period, bin_) == ('D', 'H') else {
                'period': period, 'bin_duration': bin_}
            r = I.call(I.getattr(m, 'activity_histogram'), [],
                       dict(kw, sections='SEC'))
            return (r, dict(b.log[0][1]))
        for o, v, tr in each(ctx, I, C, go):
            what = 'bins %s of %s, chunks %s' % (bin_, period, spec)
            if o != 'return':
                ctx.violation('histogram', C, '%s: %s' % (what, name(v)),
                              LOC)
                continue
            guard(ctx, C, lambda: ctx.expect(
                pyval(v[0]) == want(spec, bs, ps), 'histogram', C,
                '%s: %s, expected %s' % (what, pyval(v[0]),
                                         want(spec, bs, ps)), LOC))
            v = (0, {x: y if not isinstance(y, ADict) else pyval(y)
                     for x, y in v[1].items()})
            w = {'physical_quantity': P, 'ac_type': 'best',
                 'sections': 'SEC', 'sample_period': bs,
                 'resample_kwargs': {'how': 'max'}}
            ctx.expect(v[1] == w, 'histogram-request', C,
                       '%s: loads %s, expected %s' % (what, v[1], w), LOC)
    for period, bin_ in (('D', '5H'), ('H', 'D'), ('D', '7T'),
                         ('H', '7T')):
        def go():
            m = b.meter(1, [power([0], [1])])
            return I.call(I.getattr(m, 'activity_histogram'),
                          [period, bin_], {})
        judge(ctx, I, C, go, 'raises ValueError', 'histogram-bins',
              'bins of %s do not divide %s' % (bin_, period))


def aligned(ctx, b):
    """two columns over the good sections of the master"""
    I = b.I
    C = 'align_two_meters'
    fn = ctx.anchor(I, EL + 'align_two_meters')
    S = {'a': (0, 40), 'b': (100, 130), 'c': (200, 210), 'd': (300, 340),
         'e': (360, 380)}

    def cells(i, t):
        return atom('num', 'v%d@%d' % (i, t))
    for secs in (['a'], ['a', 'b'], ['c', 'a'], ['a', 'c', 'd'],
                 ['c'], ['b', 'd'], [], ['e'], ['a', 'e']):
        for gaps in ((), ('b',), ('a',)):
            def data(i, sections, step):
                def go(I, a, k):
                    for tf in I.iterate(k['sections']):
                        s, e = bounds(I, tf)
                        ts = [t for t in range(0, 400, step)
                              if s <= t < e and not (i == 2 and any(
                                  S[g][0] <= t < S[g][1] for g in gaps))]
                        yield power(ts, [cells(i, t) for t in ts]) if ts \
                            else empty([(P, 'active')])
                return go

            def go():
                b.log.clear()
                m = b.meter(1, data(1, secs, 10))
                s = b.meter(2, data(2, secs, 5))
                stand(I, 'good_sections', lambda i, a, k: AList(
                    [tfr(I, *S[x]) for x in secs]) if i == 1 else None)
                try:
                    return [f for f in I.iterate(I.call(fn, [m, s], {}))]
                finally:
                    unstand(I, 'good_sections')
            exp = []
            for x in secs:
                s, e = S[x]
                ts = list(range(s, e, 10))
                if len(ts) < 2 or x in gaps:
                    continue
                exp.append([(t, cells(1, t), cells(2, t).add(
                    cells(2, t + 5)).scale(Fraction(1, 2)) if t != ts[-1]
                    else None) for t in ts])
            for o, v, tr in each(ctx, I, C, go):
                what = 'good sections %s of the master, slave without %s' % (
                    [S[x] for x in secs], [S[x] for x in gaps])
                if o != 'return':
                    ctx.violation('aligned', C, '%s: %s' % (what, name(v)),
                                  LOC)
                    continue

                def look():
                    ok = len(v) == len(exp)
                    for f, w in zip(v, exp):
                        if not isinstance(f, Frame):
                            raise Unk(short(f))
                        cols = [pyval(c) for c in f.cols.labels]
                        ok = ok and cols == ['master', 'slave'] and [
                            offset(t) for t in f.idx.labels] == [
                            x[0] for x in w]
                        if not ok:
                            break
                        for i, (t, x, y) in enumerate(w):
                            ok = ok and eqv(I, f.data[0][i], x) and (
                                y is None or eqv(I, f.data[1][i], y))
                    ctx.expect(ok, 'aligned', C, '%s: %s, expected %s' % (
                        what, [(
                            [offset(t) for t in f.idx.labels], f.data)
                            for f in v], exp), LOC)
                guard(ctx, C, look)
