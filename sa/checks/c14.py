"""C14  A MeterGroup as one meter: what it loads and the statistics it
reports are the stated combination of those of its meters."""
import itertools
import re
from fractions import Fraction
from .tablecommon import *
from .c10 import T, offset
from .c11 import FakeCache, tfr, cellrepr, plainrows
from .c12 import device, ident, name
from .c13 import (setup, meters_of, desc, grp, judge, method, lst, is_group)
from graphmodel import GM

EXPLANATION = (
    'MeterGroup is interpreted over the abstract domain on groups of real '
    'ElecMeter objects whose stored readings and statistics are named atoms; '
    'what load and every statistic of the group return is compared with the '
    'combination of the atoms which the documentation states.')
ASSUMPTIONS = [
    'ElecMeter.load and the statistics of one meter are as C05, C10 and C12 '
    'decide; here they are stand-ins which answer with named atoms',
    'a chunk of a meter is resampled to the sample period of the group, so '
    'its index is aligned with that of the group']
MIN_OBLIGATIONS = 150
LOC = 'nilmtk/metergroup.py'
EM = 'nilmtk.elecmeter.ElecMeter.'
PA, PR, PX = ('power', 'active'), ('power', 'reactive'), ('power', 'apparent')
V, EN, CU = ('voltage', ''), ('energy', 'active'), ('current', '')
FR, PH = ('frequency', ''), ('phase angle', '')
MEANS = {'voltage', 'pf', 'frequency', 'power factor', 'phase angle'}


class M:
    """one meter of a scenario: rows is {second: {column: present?}} or a
    string of '#' (reading), '.' (no row) and 'o' (a row of NaN) per step"""

    def __init__(self, inst, cols=(PA,), rows='', period=10, window=None,
                 chunks=None, **meta):
        self.inst, self.cols, self.rows = inst, list(cols), rows
        self.chunks = chunks
        self.period, self.window, self.meta = period, window, meta

    def at(self, sec, col):
        i = sec // self.period
        c = self.rows[i] if isinstance(self.rows, str) and \
            0 <= i < len(self.rows) else '.'
        if c == '.':
            return None
        if c == 'o' or (c.isdigit() and int(c) != self.cols.index(col)):
            return NAN
        return self.value(sec, col)

    def value(self, sec, col):
        return atom('num', 'm%s@%s.%s%s' % (self.inst, sec, col[0][:4],
                                            col[1][:2]))

    def span(self):
        if self.window:
            return self.window
        return (0, len(self.rows) * self.period)


def flat(spec):
    for x in spec:
        if isinstance(x, (tuple, list)):
            for y in flat(x):
                yield y
        else:
            yield x


def group(I, spec, **over):
    """a MeterGroup for a spec (tuples nest), with stand-ins for what meters
    answer"""
    by = {}
    cls = I.get('nilmtk.elecmeter.ElecMeter')
    devs = {}
    for m in flat(spec):
        devs['d%s' % m.inst] = device(m.cols, sample_period=m.period,
                                      max_sample_period=3 * m.period)
        by[m.inst] = m
    I.setattr(cls, 'meter_devices', aval(devs))

    def build(spec):
        out = []
        for m in spec:
            if isinstance(m, (tuple, list)):
                out.append(build(m))
                continue
            md = {'device_model': 'd%s' % m.inst,
                  'data_location': '/building1/elec/meter%s' % m.inst}
            md.update(m.meta)
            o = I.call(cls, [Flag(), aval(md), ident(I, m.inst, 1, 'D')], {})
            I.setattr(o, 'cache', FakeCache())
            out.append(o)
        return I.call(I.get('nilmtk.metergroup.MeterGroup'), [AList(out)],
                      {})
    g = build(spec)
    log = []

    def who(o):
        return by[tuple(I.getattr(o, 'identifier'))[0]]
    I.overrides['nilmtk.metergroup.normalise_timestamp'] = \
        I.overrides['nilmtk.utils.normalise_timestamp'] = floor
    I.overrides[EM + 'load'] = lambda I, a, k: load(I, who(a[0]), a, k, log)
    I.overrides[EM + 'get_timeframe'] = lambda I, a, k: window(
        I, who(a[0]))
    return g, log, by


class Flag(Dom):
    """stands for the store of a meter"""
    def d_getattr(self, I, name):
        if name == 'all_sections_smaller_than_chunksize':
            return True
        return NotImplemented

    def d_truth(self, I):
        return True

    def d_deepcopy(self, I, memo):
        return self

    def __repr__(self):
        return '<store>'


def window(I, m):
    a, b = m.span()
    return tfr(I, a, b)


def floor(I, a, k):
    from tables import period_of
    p = period_of(a[1])
    s = offset(a[0])
    if p is None or s != int(s):
        raise Undecided('normalise_timestamp')
    return T(int(s) // p * p)


def load(I, m, a, k, log):
    """the chunks of one meter, one per section"""
    log.append((m.inst, dict(k)))
    conv = I.call(I.getattr(a[0], '_convert_physical_quantity_and_ac_type_'
                            'to_cols'), [], dict(
        (x, y) for x, y in k.items()
        if x in ('columns', 'physical_quantity', 'ac_type')))
    cols = [tuple(c) for c in I.iterate(I.getitem(conv, 'columns'))]
    sec = k.get('sections')
    secs = [window(I, m)] if sec is None else list(I.iterate(sec))
    step = k.get('sample_period') or m.period
    if step != m.period and m.rows:
        raise Unk('resampling to %s' % step)

    def gen():
        for tf in secs[:m.chunks]:
            s, e = (offset(I.getattr(tf, x)) for x in ('start', 'end'))
            a0, b0 = m.span()
            labels, data = [], [[] for _ in cols]
            for i in range(len(m.rows)):
                t = i * m.period
                if s <= t < e and m.rows[i] != '.':
                    labels.append(T(t))
                    for j, c in enumerate(cols):
                        data[j].append(m.at(t, c))
            f = Frame(Idx(labels, dt=True), Idx(cols, names=[
                'physical_quantity', 'type']), data)
            lo, hi = max(s, a0), min(e, b0)
            f.attrs['timeframe'] = tfr(I, lo, hi) if lo < hi else I.call(
                I.getattr(tfr(I, s, e), 'intersection'), [tfr(I, a0, b0)],
                {})
            yield f
    return AGen(gen())


def combined(spec, start, end, step, cols):
    """{column: [cell per instant]} as the documentation states"""
    out = {}
    for c in cols:
        line = []
        for t in range(start // step * step, end, step):
            if t < start and start % step == 0:
                continue
            vs = [v for v in (m.at(t, c) for m in flat(spec)
                              if c in m.cols and (
                                  not isinstance(m.rows, str) or
                                  t >= start))
                  if v is not None and not isnan(v)]
            if not vs:
                line.append(NAN)
                continue
            s = vs[0]
            for v in vs[1:]:
                s = s.add(v)
            if c[0] in MEANS:
                s = s.scale(Fraction(1, len(vs)))
            line.append(s)
        out[c] = line
    return out


def compare(ctx, I, C, f, want, start, end, step, what, rule='load'):
    if not isinstance(f, Frame):
        ctx.violation(rule, C, '%s: a chunk is %s' % (what, short(f)), LOC)
        return
    secs = [offset(l) for l in f.idx.labels]
    ws = list(range(start // step * step, end, step))
    ctx.expect(secs == ws, 'load-rows', C, '%s: rows at %s, expected every '
               '%s s of [%s, %s)' % (what, secs, step, start, end), LOC)
    cols = [tuple(c) for c in f.cols.labels]
    ctx.expect(sorted(cols) == sorted(want), 'load-columns', C,
               '%s: columns %s, expected %s' % (what, cols, sorted(want)),
               LOC)
    if secs != ws:
        return
    for c, d in zip(cols, f.data):
        for s, x, w in zip(ws, d, want.get(c, [])):
            ctx.expect(eqv(I, x, w), 'load-averages' if c[0] in MEANS else
                       'load-sums', C, '%s: %s at second %s is %s, expected '
                       '%s' % (what, c, s, short(x), short(w)), LOC)


def run(ctx):
    I = ctx.interp(models=dict(TM, **GM))
    ctx.anchor(I, 'nilmtk.metergroup.MeterGroup')
    loading(ctx, I)
    chunking(ctx, I)
    handing_on(ctx, I)
    frames(ctx, I)
    extent(ctx, I)
    totals(ctx, I)
    per_meter(ctx, I)
    shares(ctx, I)
    top(ctx, I)
    pairs(ctx, I)
    others(ctx, I)
    description(ctx, I)
    ctx.absorb(I)


# -------------------------------------------------------------------- loading
SPECS = [
    ('one meter', [M(1, [PA], '####')]),
    ('two meters', [M(1, [PA], '####'), M(2, [PA], '####')]),
    ('a gap in each', [M(1, [PA], '#.#.'), M(2, [PA], '##..')]),
    ('missing readings', [M(1, [PA], '#o#o'), M(2, [PA], '##oo'),
                          M(3, [PA], 'o##.')]),
    ('different columns', [M(1, [PA, PR], '####'), M(2, [PA], '#.##'),
                           M(3, [PR, V], '.##o')]),
    ('voltages', [M(1, [V, PA], '###.'), M(2, [V], '#o#.'),
                  M(3, [V, PA], '#o..')]),
    ('every averaged quantity', [
        M(1, [FR, PH, ('power factor', ''), ('pf', ''), CU], '##o'),
        M(2, [FR, PH, ('power factor', ''), ('pf', ''), CU], '#o#')]),
    ('energy', [M(1, [EN, ('cumulative energy', 'active')], '###'),
                M(2, [EN, ('cumulative energy', 'active')], '#o#')]),
    ('a nested group', [M(1, [PA], '###'), (M(2, [PA], '#o#'),
                                            M(3, [PA], 'o##'))]),
    ('a meter without data', [M(1, [PA], '', window=(0, 40)), M(2, [PA], '####')]),
    ('windows', [M(1, [PA], '######', window=(0, 60)),
                 M(2, [PA], '..####', window=(20, 60))]),
    ('readings of each column', [M(1, [PA, PR, V], '0120'),
                                 M(2, [PA, PR, V], '2110')]),
]


def chunks_of(I, g, **k):
    return list(I.iterate(method(I, g, 'load', **k)))


def loading(ctx, I):
    C = 'MeterGroup.load'
    for what, spec in SPECS:
        n = max(b for a, b in (m.span() for m in flat(spec)))
        cols = []
        for m in flat(spec):
            cols += [c for c in m.cols if c not in cols]
        reqs = [({}, cols)]
        for q in sorted({c[0] for c in cols}):
            reqs.append(({'physical_quantity': q},
                         [c for c in cols if c[0] == q]))
        reqs.append(({'columns': [cols[-1]]}, cols[-1:]))
        for kw, cs in reqs:
            for secs in [None, [(0, n)], [(10, n)], [(0, 10), (20, n)],
                         [(0, 5), (20, n)], [(20, 26)]]:
                if secs and secs[0][1] % 10 and what not in (
                        'two meters', 'voltages', 'a nested group'):
                    continue
                if secs and any(a >= b for a, b in secs):
                    continue
                def go():
                    setup(I)
                    g, log, by = group(I, spec)
                    k = {x: aval(y) for x, y in kw.items()}
                    if secs:
                        k['sections'] = AList([tfr(I, a, b)
                                               for a, b in secs])
                    return chunks_of(I, g, **k), log
                for out, v, tr in each(ctx, I, C, go):
                    w = '%s, load(%s, sections=%s)' % (what, kw, secs)
                    bad = [m for m in flat(spec) if not any(
                        c in cs for c in m.cols)]
                    if out == 'raise':
                        ctx.expect(bool(bad) and exc_name(v) in (
                            'KeyError', 'MeasurementError'), 'load', C,
                            '%s %s' % (w, name(v)), LOC)
                        continue
                    fs, log = v
                    ss = secs or [(0, n)]
                    ctx.expect(len(fs) == len(ss), 'load', C, '%s: %d '
                               'chunks' % (w, len(fs)), LOC)
                    if len(fs) != len(ss):
                        continue
                    for f, (a, b) in zip(fs, ss):
                        guard(ctx, C, lambda: compare(
                            ctx, I, C, f, combined(spec, a, b, 10, cs), a,
                            b, 10, w))


def bounds(I, tf):
    """(start, end) offsets of a time frame, or 'empty'"""
    if tf is None:
        return None
    if I.getattr(tf, 'empty') is True:
        return 'empty'
    return offset(I.getattr(tf, 'start')), offset(I.getattr(tf, 'end'))


def chunking(ctx, I):
    C = 'MeterGroup.load'
    spec = [M(1, [PA], '#' * 12), M(2, [PA], '#o' * 6)]
    for secs in ([(0, 120)], [(0, 50), (70, 120)], [(20, 60), (60, 80)],
                 [(10, 40)], [(0, 10)], [(5, 47)]):
        for size in (1, 2, 3, 5, 50):
            def go():
                setup(I)
                g, log, by = group(I, spec)
                fs = chunks_of(I, g, chunksize=size, sections=AList(
                    [tfr(I, a, b) for a, b in secs]))
                return fs, [bounds(I, I.getattr(f, 'timeframe'))
                            for f in fs]
            for out, v, tr in each(ctx, I, C, go):
                w = 'load(sections=%s, chunksize=%s)' % (secs, size)
                if out == 'raise':
                    ctx.violation('load-chunks', C, '%s %s' % (w, name(v)),
                                  LOC)
                    continue
                fs, tfs = v

                def judge_():
                    got, big = [], 0
                    for f in fs:
                        for l, x in zip(f.idx.labels, f.data[0]):
                            got.append((offset(l), x))
                        big = max(big, len(f.idx.labels))
                    want = []
                    exact = all(a % 10 == 0 for a, b in secs)
                    for a, b in secs:
                        for t in range(a // 10 * 10, b, 10):
                            want.append(t)
                    if exact:
                        ctx.expect([t for t, _ in got] == want,
                                   'load-chunks', C, '%s: rows at %s, '
                                   'expected %s' % (
                                       w, [t for t, _ in got], want), LOC)
                        ctx.expect(big <= size, 'load-chunksize', C,
                                   '%s: a chunk of %s rows' % (w, big), LOC)
                        for t, x in got:
                            vs = [m.at(int(t), PA) for m in spec]
                            vs = [y for y in vs if y is not None and
                                  not isnan(y)]
                            ctx.expect(eqv(I, x, vs[0].add(vs[1]) if len(
                                vs) > 1 else vs[0]), 'load-chunks', C,
                                '%s: second %s is %s' % (w, t, short(x)),
                                LOC)
                    if not exact:
                        return
                    ctx.expect('empty' not in tfs and None not in tfs and
                               sum(b - a for a, b in tfs) ==
                               sum(b - a for a, b in secs) and all(
                                   any(a >= x and b <= y for x, y in secs)
                                   for a, b in tfs),
                               'load-timeframe', C, '%s: the chunks say '
                               'they cover %s' % (w, tfs), LOC)
                guard(ctx, C, judge_)
    # sample period: the largest of the meters unless asked for
    for kw, want in (({}, 20), ({'sample_period': 20}, 20),
                     ({'sample_period': 40}, 40), ({'sample_period': 5}, 5)):
        def go():
            setup(I)
            g, log, by = group(I, [M(1, [PA], '', 10, (0, 80)),
                                   M(2, [PA], '', 20, (0, 80))])
            fs = chunks_of(I, g, sections=AList([tfr(I, 0, 80)]), **kw)
            return [offset(l) for f in fs for l in f.idx.labels], sorted(
                {x.get('sample_period') for _, x in log})
        judge(ctx, I, C, go, ([float(x) for x in range(0, 80, want)],
                              [want]), 'load-sample-period',
              'meters of 10 and 20 s, load(%s)' % kw)
    # the time frames of chunks: union of those of the meters
    for w1, w2, want in (((0, 60), (0, 60), (0, 60)),
                         ((0, 20), (30, 60), (0, 60)),
                         ((10, 40), (20, 50), (10, 50)),
                         ((100, 120), (10, 30), (10, 30)),
                         ((10, 30), (100, 120), (10, 30))):
        def go():
            setup(I)
            g, log, by = group(I, [M(1, [PA], '#' * 12, window=w1),
                                   M(2, [PA], '#' * 12, window=w2)])
            fs = chunks_of(I, g, sections=AList([tfr(I, 0, 60)]))
            return [bounds(I, I.getattr(f, 'timeframe')) for f in fs]
        judge(ctx, I, C, go, [tuple(map(float, want))], 'load-timeframe',
              'meters which cover %s and %s' % (w1, w2))
    # nothing to load
    for secs in ([], ['empty'], ['empty', 'empty'], ['empty', (0, 30)]):
        def go():
            setup(I)
            g, log, by = group(I, [M(1, [PA, PR], '####')])
            l = [I.call(I.getattr(tfr(I, 0, 1), 'intersection'),
                        [tfr(I, 5, 6)], {}) if x == 'empty' else tfr(I, *x)
                 for x in secs]
            fs = chunks_of(I, g, sections=AList(l))
            return [(len(f.idx.labels), sorted(map(tuple, f.cols.labels)))
                    for f in fs]
        judge(ctx, I, C, go, [(3 if (0, 30) in secs else 0, [PA, PR])],
              'load-nothing', 'sections %s' % (secs,))


def handing_on(ctx, I):
    """each meter is asked for the section, with unaltered arguments"""
    C = 'MeterGroup.load'

    def go():
        setup(I)
        g, log, by = group(I, [M(1, [PA], '####'), M(2, [PA], '####'),
                               (M(3, [PA], '####'), M(4, [PA], '####'))])
        old = I.overrides[EM + 'load']
        seen = []

        def spoil(I, a, k):
            who = tuple(I.getattr(a[0], 'identifier'))[0]
            seen.append((who, pyval(k['preprocessing']),
                         pyval(k['resample_kwargs']),
                         [bounds(I, x) for x in I.iterate(k['sections'])],
                         pyval(k.get('physical_quantity')),
                         k.get('sample_period')))
            r = old(I, a, k)
            I.call(I.getattr(k['preprocessing'], 'append'), ['x'], {})
            I.setitem(k['resample_kwargs'], 'seen', True)
            return r
        I.overrides[EM + 'load'] = spoil
        pre, res = AList(['p']), aval({'limit': 3})
        secs = AList([tfr(I, 0, 20), tfr(I, 20, 40)])
        chunks_of(I, g, preprocessing=pre, resample_kwargs=res,
                  physical_quantity='power', sections=secs)
        return sorted(seen, key=repr), pyval(pre), pyval(res), [
            bounds(I, x) for x in I.iterate(secs)]
    B = [(0.0, 20.0), (20.0, 40.0)]
    judge(ctx, I, C, go, (sorted([
        (w, ['p'], {'limit': 3}, [b], 'power', 10)
        for w in (1, 2, 3, 4) for b in B], key=repr), ['p'], {'limit': 3},
        B), 'load-arguments', 'what the meters of a group are asked for')


# --------------------------------------------------------- one column a meter
def frames(ctx, I):
    C = 'MeterGroup.dataframe_of_meters'
    cases = [
        ('two meters', [M(1, [PA], '####'), M(2, [PA], '#o.#')], None),
        ('several AC types', [M(1, [PR, PA], '####'),
                              M(2, [PX, V], '####')], None),
        ('a section without readings', [M(1, [PA], '##...##'),
                                        M(2, [PA], '#....##')],
         [(0, 20), (20, 50), (50, 70)]),
        ('meters which start later', [M(1, [PA], '.....##'),
                                      M(2, [PA], '##...##')],
         [(0, 20), (20, 50), (50, 70)]),
        ('no readings', [M(1, [PA], '', window=(0, 40)),
                         M(2, [PA], '', window=(0, 40))], [(0, 40)]),
        ('a nested group', [M(1, [PA], '##'), (M(2, [PA], '##'),
                                               M(3, [PA], '##'))],
         [(0, 20)]),
        ('a nested group of different AC types', [
            M(1, [PA], '##'), (M(2, [PA], '##'), M(3, [PX], '##'))],
         [(0, 20)]),
        ('meters which end earlier', [
            M(1, [PA], '##', chunks=1), M(2, [PA], '######'),
            M(3, [PA], '####', chunks=2)], [(0, 20), (20, 40), (40, 60)])]
    for what, spec, secs in cases:
        def go():
            setup(I)
            g, log, by = group(I, spec)
            k = {} if secs is None else {'sections': AList(
                [tfr(I, a, b) for a, b in secs])}
            f = method(I, g, 'dataframe_of_meters', **k)
            ks = sorted({(x.get('sample_period'), x.get('ac_type') if
                          isinstance(x.get('ac_type'), str) else None,
                          x.get('physical_quantity'))
                         for _, x in log}, key=repr)
            return f, ks, [tuple(I.getattr(m, 'identifier'))
                           for m in meters_of(I, g)]
        for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                ctx.violation('dataframe', C, '%s %s' % (what, name(v)),
                              LOC)
                continue
            f, ks, ids = v
            if not isinstance(f, Frame):
                ctx.violation('dataframe', C, '%s: %s' % (what, short(f)),
                              LOC)
                continue

            def judge_():
                ctx.expect(ks == [(10, 'best', 'power')],
                           'dataframe-defaults', C, '%s: the meters are '
                           'asked for (sample period, AC type, quantity) %s'
                           % (what, ks), LOC)
                want = {}
                for m, i in zip(spec, ids):
                    ms = list(flat([m]))
                    end = max(b for y in ms for a, b in [y.span()])
                    for t in range(0, end, 10):
                        row = [y.at(t, c) for y in ms for c in y.cols
                               if c[0] == 'power' and c == sorted(
                                   x for x in y.cols if x[0] == 'power')[0]]
                        if secs is not None and not any(
                                a <= t < b for a, b in secs):
                            continue
                        row = [x for x in row if x is not None]
                        if not row:
                            continue
                        row = [x for x in row if not isnan(x)]
                        z = 0
                        for x in row:
                            z = bop(I, '+', z, x)
                        want[(t, i)] = z
                got = {}
                for c, d in zip(f.cols.labels, f.data):
                    for l, x in zip(f.idx.labels, d):
                        if not isnan(x):
                            ctx.expect((offset(l), tuple(c)) not in got,
                                       'dataframe', C, '%s: %s twice' % (
                                           what, (offset(l), c)), LOC)
                            got[(offset(l), tuple(c))] = x
                for q in set(want) | set(got):
                    ctx.expect(q in want and q in got and eqv(
                        I, want[q], got[q]) or (
                            q not in got and want[q] == 0), 'dataframe', C,
                        '%s: %s is %s, expected %s' % (
                            what, q, short(got.get(q)),
                            short(want.get(q))), LOC)
                if not want:
                    ctx.expect([tuple(c) for c in f.cols.labels] == ids and
                               not f.idx.labels, 'dataframe', C, '%s: %s' %
                               (what, short(f)), LOC)
            guard(ctx, C, judge_)


# -------------------------------------------------------------------- extent
def extent(ctx, I):
    C = 'MeterGroup.get_timeframe'
    wins = [(0, 50), (10, 20), (60, 90), 'empty']
    for n in (1, 2, 3):
        for ws in itertools.product(wins, repeat=n):
            def go():
                setup(I)
                g, log, by = group(I, [M(i + 1, [PA], '', window=w)
                                       for i, w in enumerate(ws)])

                def tf(I, a, k):
                    w = ws[tuple(I.getattr(a[0], 'identifier'))[0] - 1]
                    if w == 'empty':
                        return I.call(I.getattr(tfr(I, 0, 1),
                                                'intersection'),
                                      [tfr(I, 5, 6)], {})
                    return tfr(I, *w)
                I.overrides[EM + 'get_timeframe'] = tf
                return bounds(I, method(I, g, 'get_timeframe'))
            full = [w for w in ws if w != 'empty']
            want = (float(min(a for a, b in full)),
                    float(max(b for a, b in full))) if full else 'empty'
            judge(ctx, I, C, go, want, 'timeframe', 'meters which cover %s'
                  % (ws,))
    C = 'MeterGroup.sample_period'
    for ps in ([10], [10, 20], [60, 6, 10]):
        judge(ctx, I, C, lambda: (setup(I), method(I, group(I, [
            M(i + 1, [PA], '', p, (0, 10)) for i, p in enumerate(ps)])[0],
            'sample_period'))[1], max(ps), 'sample-period', str(ps))
    judge(ctx, I, C, lambda: (setup(I), method(I, group(I, [
        M(1, [PA], '', 10, (0, 10)), (M(2, [PA], '', 6, (0, 10)), M(
            3, [PA], '', 60, (0, 10)))])[0], 'sample_period'))[1], 60,
        'sample-period', '10, nested (6, 60)')
    for nm, arg, want in (
            ('available_ac_types', 'power', ['active', 'reactive']),
            ('available_ac_types', 'energy', ['active']),
            ('available_ac_types', ['power', 'energy'],
             ['active', 'reactive']),
            ('available_physical_quantities', None,
             ['energy', 'power', 'voltage'])):
        def go():
            setup(I)
            g = group(I, [M(1, [PA, PR], ''), (M(2, [PA, EN], ''),
                                               M(3, [PA, V], ''))])[0]
            r = lst(I, method(I, g, nm, *([] if arg is None
                                          else [aval(arg)])))
            return sorted(pyval(x) for x in r)
        judge(ctx, I, 'MeterGroup.' + nm, go, want, 'available', '%s(%r)' % (
            nm, arg))


# -------------------------------------------------------------------- totals
def stand(I, stat, fn):
    """replace a statistic of one meter by fn(instance, kwargs)"""
    I.overrides[EM + stat] = I.overrides['nilmtk.electric.Electric.' +
                                         stat] = \
        lambda I, a, k: fn(tuple(I.getattr(a[0], 'identifier'))[0], a[1:],
                           dict(k))


def unstand(I, *stats):
    for s in stats:
        I.overrides.pop(EM + s, None)
        I.overrides.pop('nilmtk.electric.Electric.' + s, None)


def E(i, t):
    return atom('num', 'e%s%s' % (i, t[:2]))


def energies(I, types, log=None):
    """a stand-in for total_energy: a Series by AC type"""
    def fn(i, a, k):
        if log is not None:
            log.append((i, a, k))
        ts = types[i]
        return Series([E(i, t) if not isinstance(ts, dict) else ts[t]
                       for t in ts], Idx(list(ts)))
    return fn


def seriesdict(v):
    if not isinstance(v, Series):
        raise Unk(short(v))
    return dict(zip(v.idx.labels, v.vals))


def plus(xs):
    s = None
    for x in xs:
        s = x if s is None else s.add(x)
    return s


def totals(ctx, I):
    C = 'MeterGroup.total_energy'
    A3 = ('active', 'apparent', 'reactive')
    subsets = [c for n in (1, 2, 3) for c in itertools.combinations(A3, n)]
    cases = [[a] for a in subsets] + [list(p) for p in itertools.product(
        subsets, repeat=2)] + [[('active',), ('reactive',), ('active',)],
                               [('active', 'reactive'), ('active',),
                                ('apparent', 'reactive')]]
    for types in cases:
        for nest in (False, True):
            if nest and len(types) < 2:
                continue

            def go():
                setup(I)
                ms = [M(i + 1, [PA], '') for i in range(len(types))]
                g = group(I, ms if not nest else [ms[0], tuple(ms[1:])])[0]
                log = []
                stand(I, 'total_energy', energies(I, {
                    i + 1: t for i, t in enumerate(types)}, log))
                r = method(I, g, 'total_energy', ac_type='x', other=3)
                unstand(I, 'total_energy')
                return r, log
            for out, v, tr in each(ctx, I, C, go):
                w = 'meters with AC types %s' % (types,)
                if out == 'raise':
                    ctx.violation('total-energy', C, '%s %s' % (w, name(v)),
                                  LOC)
                    continue

                def judge_():
                    got = seriesdict(v[0])
                    want = {t: plus([E(i + 1, t) for i, ts in enumerate(
                        types) if t in ts]) for t in A3}
                    for t in A3:
                        ctx.expect((t in got) == (want[t] is not None) and
                                   (t not in got or eqv(I, got[t],
                                                        want[t])),
                                   'total-energy', C, '%s: %s is %s, '
                                   'expected %s' % (w, t, short(got.get(t)),
                                                    short(want[t])), LOC)
                    ctx.expect(all(k.get('ac_type') == 'x' and
                                   k.get('other') == 3 and not
                                   k.get('full_results')
                                   for _, _, k in v[1]) and sorted(
                        i for i, _, _ in v[1]) == list(range(
                            1, len(types) + 1)), 'stat-arguments', C,
                        '%s: the meters are asked for %s' % (w, [
                            (i, sorted(k)) for i, _, k in v[1]]), LOC)
                guard(ctx, C, judge_)
    # full results unify period by period
    PER = [(0, 100), (100, 200)]

    def full(I, cls, pay, nest, stat, n=2):
        setup(I)
        ms = [M(i + 1, [PA], '') for i in range(n)]
        g = group(I, ms if not nest else [ms[0], tuple(ms[1:])])[0]
        rc = I.get('nilmtk.stats.%s.%s' % (cls.lower(), cls))

        def fn(i, a, k):
            r = I.call(rc, [], {})
            for j, (x, y) in enumerate(PER):
                I.call(I.getattr(r, 'append'), [tfr(I, x, y), aval(
                    pay(i, j))], {})
            return r
        stand(I, stat, fn)
        try:
            r = method(I, g, stat, full_results=True, sections=AList(
                [tfr(I, a, b) for a, b in PER]))
        finally:
            unstand(I, stat)
        d = I.call(I.getattr(r, 'per_period'), [], {})
        return [(offset(l), {c: x[q] for c, x in zip(d.cols.labels, d.data)})
                for q, l in enumerate(d.idx.labels)]
    for nest in (False, True):
        def pay(i, j):
            return {'active': atom('num', 'f%s.%s' % (i, j))}
        for out, v, tr in each(ctx, I, C, lambda: full(
                I, 'TotalEnergyResults', pay, nest, 'total_energy', 3)):
            if out == 'raise':
                ctx.violation('full-results', C, name(v), LOC)
                continue
            ok = [s for s, _ in v] == [0.0, 100.0] and all(
                eqv(I, r['active'], plus([pay(i, j)['active']
                                          for i in (1, 2, 3)]))
                for j, (s, r) in enumerate(v))
            ctx.expect(ok, 'full-results', C, 'three meters, two periods'
                       '%s: %s' % (', nested' if nest else '', short(v)),
                       LOC)
        D = 'MeterGroup.dropout_rate'
        for out, v, tr in each(ctx, I, D, lambda: full(
                I, 'DropoutRateResults', lambda i, j: {
                    'dropout_rate': 0.1 * i, 'n_samples': 10}, nest,
                'dropout_rate')):
            if out == 'raise':
                ctx.violation('full-results', D, name(v), LOC)
                continue
            ok = [s for s, _ in v] == [0.0, 100.0] and all(
                r.get('n_samples') == 20 and abs(
                    r['dropout_rate'] - 0.15) < 1e-9 for _, r in v)
            ctx.expect(ok, 'full-results', D, 'two meters with dropout rates '
                       '0.1 and 0.2: %s' % (v,), LOC)
    for stat in ('total_energy', 'dropout_rate'):
        for n, want in ((2, 'raises RuntimeError'), (1, 'asked')):
            def go():
                setup(I)
                g = group(I, [M(i + 1, [PA], '') for i in range(n)])[0]
                stand(I, stat, lambda i, a, k: 'asked')
                try:
                    return method(I, g, stat, full_results=True)
                finally:
                    unstand(I, stat)
            judge(ctx, I, 'MeterGroup.' + stat, go, want, 'full-results',
                  'full results of %d meters without sections' % n)
    C = 'MeterGroup.dropout_rate'
    for rates in ([0.5], [0.25, 0.75], [0.0, 0.0, 0.6], [1.0, 0.0],
                  [NAN, 0.5]):
        def go():
            setup(I)
            g = group(I, [M(i + 1, [PA], '') for i in range(len(rates))])[0]
            stand(I, 'dropout_rate', lambda i, a, k: rates[i - 1])
            try:
                r = method(I, g, 'dropout_rate')
                return 'nan' if isnan(r) else round(r, 9)
            finally:
                unstand(I, 'dropout_rate')
        judge(ctx, I, C, go, 'nan' if any(map(isnan, rates)) else
              round(sum(rates) / len(rates), 9),
              'dropout-mean', str(rates))
    C = 'MeterGroup.good_sections'
    for n, want in ((0, []), (1, ('sections of', 1, 7)),
                    (2, ('sections of', 1, 7))):
        def go():
            setup(I)
            g = group(I, [M(i + 1, [PA], '') for i in range(n)])[0]
            stand(I, 'good_sections', lambda i, a, k: (
                'sections of', i, k.get('q')))
            try:
                return pyval(method(I, g, 'good_sections', q=7))
            finally:
                unstand(I, 'good_sections')
        judge(ctx, I, C, go, want, 'good-sections', '%d meters' % n)


# ----------------------------------------------------------------- per meter
def frame_cells(f):
    if isinstance(f, Series):
        return {tuple(l) if isinstance(l, (tuple, list)) else l: v
                for l, v in zip(f.idx.labels, f.vals)}
    if not isinstance(f, Frame):
        raise Unk(short(f))
    return {(l, tuple(c) if isinstance(c, tuple) else c): x
            for c, d in zip(f.cols.labels, f.data)
            for l, x in zip(f.idx.labels, d)}


def per_meter(ctx, I):
    C = 'MeterGroup.energy_per_meter'
    A3 = ('active', 'apparent', 'reactive')
    for types in ([('active',), ('active',)], [('apparent',), ('active',)],
                  [A3, ('reactive',), ('active', 'reactive')]):
        for period in (None, 'D'):
            for nest in (False, True):
                def go():
                    setup(I)
                    ms = [M(i + 1, [PA], '') for i in range(len(types))]
                    g = group(I, ms if not nest else
                              [ms[0], tuple(ms[1:])])[0]
                    log = []
                    st = 'total_energy' if period is None else \
                        'average_energy_per_period'
                    if nest and period:
                        return None
                    stand(I, st, energies(I, {
                        i + 1: t for i, t in enumerate(types)}, log))
                    try:
                        f = method(I, g, 'energy_per_meter',
                                   per_period=period, extra=1)
                    finally:
                        unstand(I, st)
                    return f, log, [pyval(tuple(I.getattr(
                        m, 'identifier'))) for m in meters_of(I, g)]
                for out, v, tr in each(ctx, I, C, go):
                    w = 'AC types %s, per %s' % (types, period)
                    if out == 'return' and v is None:
                        continue
                    if out == 'raise':
                        ctx.violation('energy-per-meter', C, '%s %s' % (
                            w, name(v)), LOC)
                        continue
                    f, log, ids = v

                    def judge_():
                        ctx.expect(all(
                            k.get('ac_type') == 'best' and
                            k.get('extra') == 1 and (
                                period is None or
                                k.get('offset_alias') == period and
                                k.get('use_uptime') is False)
                            for _, _, k in log), 'stat-arguments', C,
                            '%s: the meters are asked for %s' % (w, [
                                k for _, _, k in log]), LOC)
                        got = frame_cells(f)
                        if not isinstance(f, Frame):
                            raise Unk(short(f))
                        cols = [tuple(c) for c in f.cols.labels]
                        ctx.expect(cols == ids, 'energy-per-meter', C,
                                   '%s: columns %s' % (w, cols), LOC)
                        for j, i in enumerate(ids):
                            mem = [j] if not nest or j == 0 else list(
                                range(1, len(types)))
                            for t in A3:
                                xs = [E(x + 1, t) for x in mem
                                      if t in types[x]]
                                g_ = got.get((t, i), NAN)
                                ctx.expect(eqv(I, g_, plus(xs) if xs else
                                               NAN), 'energy-per-meter', C,
                                           '%s: %s of meter %s is %s' % (
                                               w, t, i, short(g_)), LOC)
                    guard(ctx, C, judge_)
    # labels and the remainder
    val = {1: {'active': 100.0}, 2: {'active': 30.0}, 3: {'active': 45.0},
           4: {'apparent': 5.0}}

    def world(I, cols=(PA,)):
        ms = [M(1, list(cols), '', site_meter=True)] + [
            M(i, [PA], '', submeter_of=1) for i in (2, 3, 4)]
        g = group(I, ms)[0]
        ap = I.get('nilmtk.appliance.Appliance')
        for m, (t, n) in zip(meters_of(I, g)[1:], (
                ('fridge', 1), ('kettle', 1), ('light', 2))):
            I.setattr(m, 'appliances', AList([I.call(ap, [aval(
                {'type': t, 'instance': n, 'meters': [1]})], {})]))
        return g
    for period in (None, 'W'):
        for labels in (False, True):
            for mcols, best in (([PA, PR], 'active'), ([PX], 'best'),
                                ([PR, PX], 'best'),
                                ([EN, V], 'active'),
                                ([('cumulative energy', 'active')],
                                 'active')):
                def go():
                    setup(I)
                    g = world(I, mcols)
                    log = []
                    st = 'total_energy' if period is None else \
                        'average_energy_per_period'
                    stand(I, st, energies(I, val, log))
                    try:
                        f = method(I, method(I, g, 'submeters'),
                                   'energy_per_meter', per_period=period,
                                   mains=meters_of(I, g)[0],
                                   use_meter_labels=labels)
                    finally:
                        unstand(I, st)
                    return f, [(i, k.get('ac_type'), k.get('offset_alias'))
                               for i, a, k in log]
                for out, v, tr in each(ctx, I, C, go):
                    w = 'with mains of %s, per %s, labels=%s' % (
                        mcols, period, labels)
                    if out == 'raise':
                        ctx.violation('remainder', C, '%s %s' % (w, name(v)),
                                      LOC)
                        continue

                    def judge_():
                        ks = ['Fridge', 'Kettle', 'Light'] if labels \
                            else [(2, 1, 'D'), (3, 1, 'D'), (4, 1, 'D')]
                        want = [(ks[1], 45.0), (ks[0], 30.0),
                                ('Remainder', 20.0), (ks[2], 5.0)]
                        if not isinstance(v[0], Series):
                            raise Unk(short(v[0]))
                        got = list(zip(v[0].idx.labels, v[0].vals))
                        ctx.expect(got == want, 'remainder', C, '%s: %s, '
                                   'expected %s' % (w, got, want), LOC)
                        ctx.expect((1, best, period) in v[1],
                                   'remainder-ac-type', C, '%s: mains are '
                                   'asked for %s, expected AC type %s' % (
                                       w, [x for x in v[1] if x[0] == 1],
                                       best), LOC)
                    guard(ctx, C, judge_)


def shares(ctx, I):
    """proportions"""
    val = {1: {'active': 100.0}, 2: {'active': 30.0},
           3: {'active': 45.0, 'reactive': 3.0}, 4: {'reactive': 25.0}}
    C = 'MeterGroup.fraction_per_meter'

    def go():
        setup(I)
        g = group(I, [M(i, [PA], '') for i in (2, 3, 4)])[0]
        stand(I, 'total_energy', energies(I, val))
        try:
            r = method(I, g, 'fraction_per_meter')
        finally:
            unstand(I, 'total_energy')
        return {tuple(k): round(x, 9) for k, x in seriesdict(r).items()}
    judge(ctx, I, C, go, {(2, 1, 'D'): 0.3, (3, 1, 'D'): 0.45,
                          (4, 1, 'D'): 0.25}, 'fractions', 'energies %s' %
          {k: val[k] for k in (2, 3, 4)})
    C = 'MeterGroup.proportion_of_energy_submetered'
    for props, want in (({2: 0.25, 3: 0.5}, 0.75), ({2: NAN, 3: 0.5}, 0.5),
                        ({2: 0.25, 3: NAN}, 0.25), ({2: NAN, 3: NAN}, NAN),
                        ({2: 0.0, 3: NAN}, 0.0)):
        def go():
            setup(I)
            # meter 4 is downstream of 2 and must not be counted again
            g = group(I, [M(1, [PA], '', site_meter=True),
                          M(2, [PA], '', submeter_of=1),
                          M(3, [PA], '', submeter_of=1),
                          M(4, [PA], '', submeter_of=2)])[0]
            J = I.get('nilmtk.metergroup.MeterGroup')
            log = []

            def fn(i, a, k):
                log.append((i, pyval(tuple(I.getattr(
                    a[0], 'identifier')))[0], k))
                return props.get(i, 0.125)
            ups = {m: meters_of(I, g)[m] for m in ()}
            ms = {pyval(tuple(I.getattr(m, 'identifier')))[0]: m
                  for m in meters_of(I, g)}
            I.overrides[EM + 'upstream_meter'] = lambda I, a, k: ms.get(
                {2: 1, 3: 1, 4: 2}.get(tuple(I.getattr(
                    a[0], 'identifier'))[0]))
            stand(I, 'proportion_of_energy', fn)
            try:
                r = method(I, g, 'proportion_of_energy_submetered', q=5)
            finally:
                unstand(I, 'proportion_of_energy', 'upstream_meter')
            return ('nan' if isnan(r) else round(r, 9)), sorted(
                (i, j, k.get('q')) for i, j, k in log)
        judge(ctx, I, C, go, ('nan' if isnan(want) else want,
                              [(2, 1, 5), (3, 1, 5)]), 'submetered',
              'proportions %s' % props)
    C = 'MeterGroup.proportion_of_upstream_total_per_meter'

    def go():
        setup(I)
        g = group(I, [M(i, [PA], '') for i in (2, 3, 4)])[0]
        stand(I, 'proportion_of_upstream', lambda i, a, k: {
            2: 0.125, 3: 0.5, 4: 0.25}[i] * k['f'])
        try:
            r = method(I, g, 'proportion_of_upstream_total_per_meter', f=2)
        finally:
            unstand(I, 'proportion_of_upstream')
        return [(k[0], x) for k, x in zip(r.idx.labels, r.vals)]
    judge(ctx, I, C, go, [(3, 1.0), (4, 0.5), (2, 0.25)],
          'upstream-proportions', 'proportions 0.125, 0.5, 0.25')


# --------------------------------------------------------------------- top k
def top(ctx, I):
    topk(ctx, I, {1: 5.0, 2: 30.0, 3: 45.0, 4: 12.0, 5: 1.0, 6: 40.0,
                  7: 8.0})
    topk(ctx, I, {1: 5.0, 2: NAN, 3: 45.0})


def topk(ctx, I, val):
    C = 'MeterGroup.select_top_k'
    order = sorted((i for i in val if not isnan(val[i])),
                   key=lambda i: -val[i])
    last = [i for i in val if isnan(val[i])]
    for by in ('energy', 'entropy'):
        for k in (None, 1, 2, 3, 7, 9):
            for asc in (False, True):
                for rest in (False, True):
                    def go():
                        setup(I)
                        g = group(I, [M(i, [PA], '') for i in val])[0]
                        stand(I, 'total_energy', energies(I, {
                            i: {'active': e} for i, e in val.items()}))
                        stand(I, 'entropy', lambda i, a, kk: val[i])
                        kw = {'by': by, 'asc': asc, 'group_remainder': rest}
                        if k is not None:
                            kw['k'] = k
                        try:
                            r = method(I, g, 'select_top_k', **kw)
                        finally:
                            unstand(I, 'total_energy', 'entropy')
                        ms = meters_of(I, r)
                        own = meters_of(I, g)
                        return ([desc(I, m) for m in ms],
                                I.getattr(ms[-1], 'name') if rest else None,
                                all(any(x is y for y in own) for x in ms
                                    if not is_group(I, x)),
                                [desc(I, m) for m in own])
                    kk = 5 if k is None else k
                    o = (order[::-1] if asc else order) + last
                    want = o[:kk] + ([grp(*o[kk:])] if rest else [])
                    judge(ctx, I, C, go, (want, 'others' if rest else None,
                                          True, list(val)), 'top-k',
                          'k=%s by %s, asc=%s, group_remainder=%s' % (
                              k, by, asc, rest))


# --------------------------------------------------------------------- pairs
def pairs(ctx, I):
    C = 'MeterGroup.call_method_on_all_meters'

    def go():
        setup(I)
        g = group(I, [M(i, [PA], '') for i in (2, 3, 4)])[0]
        stand(I, 'entropy', lambda i, a, k: atom('num', 'h%s' % i))
        try:
            r = [method(I, g, 'call_method_on_all_meters', 'entropy'),
                 method(I, g, 'entropy_per_meter')]
        finally:
            unstand(I, 'entropy')
        return [[(k[0], short(x)) for k, x in zip(s.idx.labels, s.vals)]
                for s in r]
    judge(ctx, I, C, go, [[(i, 'h%s' % i) for i in (2, 3, 4)]] * 2,
          'per-meter', 'entropy of three meters')
    C = 'MeterGroup.pairwise'
    for nm, stat in (('pairwise_correlation', 'correlation'),
                     ('pairwise_mutual_information', 'mutual_information')):
        def go():
            setup(I)
            g = group(I, [M(i, [PA], '') for i in (4, 2, 3)])[0]

            def fn(i, a, k):
                j = tuple(I.getattr(a[0], 'identifier'))[0]
                return atom('num', 'p%d%d' % (min(i, j), max(i, j)))
            stand(I, stat, fn)
            try:
                f = method(I, g, nm)
            finally:
                unstand(I, stat)
            if not isinstance(f, Frame):
                raise Unk(short(f))
            return [l[0] for l in f.idx.labels], {
                (l[0], c[0]): short(x) for (l, c), x in frame_cells(
                    f).items()}
        judge(ctx, I, 'MeterGroup.' + nm, go, ([4, 2, 3], {
            (i, j): 'p%d%d' % (min(i, j), max(i, j))
            for i in (2, 3, 4) for j in (2, 3, 4)}), 'pairwise',
            'three meters')
    C = 'MeterGroup.correlation_of_sum_of_submeters_with_mains'

    def go():
        setup(I)
        g = group(I, [M(1, [PA], '', site_meter=True), M(2, [PA], ''),
                      M(3, [PA], ''), M(4, [PA], '')])[0]
        ms = {pyval(tuple(I.getattr(m, 'identifier')))[0]: m
              for m in meters_of(I, g)}
        I.overrides[EM + 'upstream_meter'] = lambda I, a, k: ms.get(
            {2: 1, 3: 1, 4: 2}.get(tuple(I.getattr(
                a[0], 'identifier'))[0]))
        stand(I, 'correlation', lambda i, a, k: (i, desc(I, a[0]),
                                                 k.get('q')))
        try:
            return method(I, g, 'correlation_of_sum_of_submeters_with_mains',
                          q=1)
        finally:
            unstand(I, 'correlation', 'upstream_meter')
    judge(ctx, I, C, go, (1, grp(2, 3), 1), 'correlation-with-mains',
          'mains 1, sub meters 2 and 3, 4 below 2')


# -------------------------------------------------------------------- others
def others(ctx, I):
    C = 'MeterGroup.simultaneous_switches'
    sw = {1: [0, 10], 2: [0, 20, 30], 3: [20, 30], 4: [30, 50]}

    def go():
        setup(I)
        g = group(I, [M(i, [PA], '', **({'site_meter': True} if i == 1
                                        else {})) for i in sw])[0]
        seen = []

        def fn(i, a, k):
            seen.append((i, (list(a) + [k.get('threshold')])[0]))
            return AList([T(x) for x in sw[i]])
        stand(I, 'switch_times', fn)
        try:
            r = method(I, g, 'simultaneous_switches', 55)
        finally:
            unstand(I, 'switch_times')
        if not isinstance(r, Series):
            raise Unk(short(r))
        return sorted((offset(l), pyval(x)) for l, x in zip(
            r.idx.labels, r.vals)), sorted(seen)
    judge(ctx, I, C, go, ([(20.0, 2), (30.0, 3)],
                          [(2, 55), (3, 55), (4, 55)]),
          'simultaneous-switches', 'switch times %s of sub meters 2, 3, 4' %
          sw)
    C = 'MeterGroup.train_test_split'
    for secs in ([(0, 100)], [(0, 40), (100, 160)], [(0, 50), (100, 150)],
                 [(0, 10), (20, 30), (40, 120)]):
        for fr in (None, 0.25, 0.5, 0.75, 0.4):
            def go():
                setup(I)
                g = group(I, [M(1, [PA], '', site_meter=True),
                              M(2, [PA], '')])[0]
                stand(I, 'good_sections', lambda i, a, k: AList([
                    tfr(I, a_, b_) for a_, b_ in secs]))
                try:
                    r = method(I, g, 'train_test_split', *(
                        [] if fr is None else [fr]))
                finally:
                    unstand(I, 'good_sections')
                return offset(r)
            left = sum(b - a for a, b in secs) * (0.5 if fr is None else fr)
            want = None
            for j, (a, b) in enumerate(secs):
                if left < b - a or j == len(secs) - 1:
                    want = a + left
                    break
                left -= b - a
            judge(ctx, I, C, go, float(want), 'split-point', 'good sections '
                  '%s, fraction %s' % (secs, fr))
    for fr in (0, 1, -0.5, 2):
        judge(ctx, I, C, lambda: (setup(I), method(I, group(I, [M(
            1, [PA], '', site_meter=True)])[0], 'train_test_split', fr))[1],
            'raises AssertionError', 'split-point', 'fraction %s' % fr)


# --------------------------------------------------------------- description
def description(ctx, I):
    """MeterGroup.describe names each figure after what it is"""
    C = 'MeterGroup.describe'
    MG = 'nilmtk.metergroup.MeterGroup.'
    COR, PRO = 'correlation_of_sum_of_submeters_with_mains', \
        'proportion_of_energy_submetered'
    drop = {1: 0.5, 2: 0.25, 3: 0.0}
    up = {1: 30, 2: 7, 3: 9}
    for sites in ((1,), (3,), (1, 2)):
        for off, dur in ((False, 40), (True, 40))[
                len(sites) - 1:]:
            for cheap in (False, True):
                seen = {}

                def go():
                    seen.clear()
                    setup(I)
                    g = group(I, [M(i, [PA], '', window=(0, dur * i),
                                    period=6 * i, **(
                                        {'site_meter': True} if i in sites
                                        else {'submeter_of': sites[0]}))
                                  for i in (1, 2, 3)])[0]
                    if off:
                        ms = I.getattr(g, 'meters')
                        last = ms.items[1]
                        I.setattr(g, 'disabled_meters', AList([last]))
                        del ms.items[1]

                    def call(n, v):
                        def f(I, a, k):
                            seen.setdefault(n, []).append(dict(k))
                            return v
                        return f
                    for n in (COR, PRO):
                        I.overrides[MG + n] = call(n, atom('num', n[:4]))

                    def rate(i, a, k):
                        k.pop('full_results', None)
                        seen.setdefault('dropout', []).append(k)
                        return drop[i]

                    def uptime(i, a, k):
                        seen.setdefault('uptime', []).append(k)
                        return Lin('td', {}, up[i])
                    stand(I, 'dropout_rate', rate)
                    stand(I, 'uptime', uptime)
                    stand(I, 'average_energy_per_period',
                          lambda i, a, k: atom('num', 'avg%s' % i))
                    try:
                        kw = {'compute_expensive_stats': False} if cheap \
                            else {}
                        v = method(I, g, 'describe', q=1, **kw)
                        sd = {pyval(k): x for k, x in seriesdict(v).items()}
                    finally:
                        unstand(I, 'dropout_rate', 'uptime',
                                'average_energy_per_period')
                        for n in (COR, PRO):
                            I.overrides.pop(MG + n, None)
                    out = []
                    for k in ('total_n_meters', 'total_n_site_meters', COR,
                              PRO, 'dropout_rates_ignoring_gaps',
                              'mains_sample_period', 'submeter_sample_period',
                              'proportion_uptime',
                              'average_mains_energy_per_day'):
                        x = sd.get(k, 'absent')
                        if x != 'absent' and isnan(x):
                            out.append((k, 'nan'))
                            continue
                        l = lift(x)
                        if k.startswith('dropout') and x != 'absent' and \
                                isinstance(x, str):
                            x = [float(y) for y in re.findall(
                                r'\d+\.?\d*', x)]
                            out.append((k, x))
                            continue
                        out.append((k, float(l.const) if l is not None and
                                    not l.co else x if x == 'absent' else
                                    short(x)))
                    out += [(k, k in sd) for k in (
                        'timeframe', 'total_duration', 'mains_uptime')]
                    out.append(sorted((n, bool(l) and all(
                        k == {'q': 1} for k in l))
                        for n, l in seen.items()))
                    return out
                on = [i for i in (1, 2, 3) if not (off and i == 2)]
                ds = [drop[i] for i in on]
                sub = [i for i in on if i not in sites]
                text = [min(ds), sum(ds) / len(ds), max(ds)]
                want = [('total_n_meters', 3.0), ('total_n_site_meters', float(len(sites))),
                        (COR, 'absent' if cheap else 'corr'),
                        (PRO, 'absent' if cheap else 'prop'),
                        ('dropout_rates_ignoring_gaps',
                         'absent' if cheap else text),
                        ('mains_sample_period', 6.0 * sites[0]),
                        ('submeter_sample_period', 6.0 * max(sub)),
                        ('proportion_uptime', up[sites[0]] / 120.
                         if dur else 'nan'),
                        ('average_mains_energy_per_day',
                         'avg%s' % sites[0]),
                        ('timeframe', True), ('total_duration', True),
                        ('mains_uptime', True),
                        sorted((n, True) for n in (
                            [] if cheap else [COR, PRO, 'dropout']) +
                            ['uptime'])]
                judge(ctx, I, C, go, want, 'describe', 'site meter %s%s%s' % (
                    sites, ', meter 2 disabled' if off else '',
                    ', cheap' if cheap else ''))
