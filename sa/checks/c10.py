"""C10 - the statistics of a meter are exactly what its readings say: total
energy per AC type from the preferred quantity, drop-out rate, good sections
independent of chunking.  The stats functions and nodes are abstractly
interpreted over tables whose readings are named atoms and whose instants are
a symbolic origin plus known offsets."""
import itertools
from fractions import Fraction

from .tablecommon import *  # noqa
from .tablecommon import TM, Frame, Source, Idx
from .c09 import META, without, merged

MIN_OBLIGATIONS = 300
ASSUMPTIONS = ['numpy.diff, clip and sums have their documented meaning; '
               'numbers are exact',
               'chunks hold at least two readings and share their boundary '
               'reading, as the HDF store delivers them',
               'columns that are differenced have no missing readings']
J = 3600000


def T(x):
    return Lin('ts', {'T': 1}, Fraction(x))


def frame(ts, cols, pre='r', holes=()):
    return mkframe([T(x) for x in ts], cols, pre, holes)


def run(ctx):
    I = ctx.interp(models=dict(TM))
    energy(ctx, I)
    energy_node(ctx, I)
    required(ctx, I)
    dropout(ctx, I)
    good(ctx, I)
    combined(ctx, I)
    ctx.absorb(I)


# ------------------------------------------------------------------- energy
TS = {'even': [0, 10, 20, 30], 'gaps': [0, 10, 200, 203.5, 263.5, 500],
      'one': [5], 'two': [0, 60], 'limit': [0, 60, 121, 181]}
QUANT = ['cumulative energy', 'energy', 'power']


def oracle(cols, ts, pre, holes, m):
    want = {}
    for ac in AC:
        have = [q for q in QUANT if (q, ac) in cols]
        if not have:
            continue
        q = have[0]
        j = cols.index((q, ac))
        rd = [(t, atom('num', '%s%d.%d' % (pre, i, j)))
              for i, t in enumerate(ts) if (i, j) not in holes]
        e = Lin('num')
        if q == 'power':
            for (a, r), (b, _) in zip(rd, rd[1:]):
                e = e.add(r.scale(Fraction(min(Fraction(b) - Fraction(a),
                                               m)) / J))
        elif q == 'energy':
            for _, r in rd:
                e = e.add(r)
        else:
            e = rd[-1][1].add(rd[0][1], -1)
        want[ac] = e
    return want


def cases():
    sets = []
    for k in range(1, 4):
        for qs in itertools.combinations(QUANT, k):
            sets.append([(q, 'active') for q in qs])
            sets.append([(q, 'active') for q in qs[::-1]])
    sets += [[('power', 'active'), ('power', 'apparent'),
              ('power', 'reactive')],
             [('power', 'apparent'), ('energy', 'active'),
              ('cumulative energy', 'reactive')],
             [('voltage', ''), ('power', 'reactive')], [('voltage', '')],
             [('energy', 'apparent'), ('power', 'apparent'),
              ('current', 'active'), ('power', 'active')]]
    return sets


def energy(ctx, I):
    C = 'get_total_energy'
    LOC = 'nilmtk/stats/totalenergy.py'
    f = ctx.anchor(I, 'nilmtk.stats.totalenergy.' + C)
    for cols in cases():
        for name, ts in TS.items():
            for holes in ((), ((0, 0),), ((1, 0),), ((len(ts) - 1, 0),)):
                if holes and len(ts) < 3:
                    continue
                for m in (60, 7):
                    want = oracle(cols, ts, 'r', holes, m)

                    def go():
                        df = frame(ts, cols, 'r', holes)
                        k = snap(df)
                        r = I.call(f, [df, m], {})
                        return r, snap(df) == k
                    for out, v, tr in each(ctx, I, C, go):
                        what = 'columns %s, instants %s, limit %s' % (
                            cols, ts, m)
                        if out == 'raise':
                            ctx.violation('energy', C, '%s: raises %s' % (
                                what, exc_name(v)), LOC)
                            continue
                        r, pure = v
                        ctx.expect(pure, 'energy-pure', C, what + ': the '
                                   'readings are changed', LOC)
                        if not isinstance(r, ADict):
                            ctx.undecided(C, short(r))
                            continue

                        def judge():
                            got = {k: x for k, x in r.pairs}
                            ctx.expect(set(got) == set(want),
                                       'energy-types', C, '%s: types %s, '
                                       'expected %s' % (
                                           what, sorted(got),
                                           sorted(want)), LOC)
                            for ac in set(got) & set(want):
                                ctx.expect(eqv(I, got[ac], want[ac]),
                                           'energy-value', C,
                                           '%s: %s energy is %s, expected '
                                           '%s' % (what, ac, short(got[ac]),
                                                   want[ac]), LOC)
                        guard(ctx, C, judge)


def with_tf(I, df, s, e):
    tf = I.get('nilmtk.timeframe.TimeFrame')
    df.attrs['timeframe'] = I.call(tf, [T(s), T(e)], {})
    return df


def energy_node(ctx, I):
    C = 'TotalEnergy.process'
    LOC = 'nilmtk/stats/totalenergy.py'
    cls = ctx.anchor(I, 'nilmtk.stats.totalenergy.TotalEnergy')
    cols = [('power', 'active'), ('energy', 'apparent')]
    parts = [(0, [0, 10, 30]), (100, [100, 105, 400]), (1000, [1000])]
    for mx in (10, 200):
        meta = merged(META, {'device': {'max_sample_period': mx}})

        def go():
            cs = [with_tf(I, frame(ts, cols, 'c%d_' % i), s, s + 99)
                  for i, (s, ts) in enumerate(parts)]
            cs.append(with_tf(I, Frame(), 5000, 5099))
            node = I.call(cls, [Source(cs, aval(meta))], {})
            I.call(I.getattr(node, 'run'), [], {})
            r = I.getattr(node, 'results')
            d = I.call(I.getattr(r, 'per_period'), [], {})
            t = I.call(I.getattr(r, 'combined'), [], {})
            return d, t
        for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                ctx.violation('energy-results', C, 'raises %s' % exc_name(v),
                              LOC)
                continue
            d, t = v
            if not isinstance(d, Frame) or not isinstance(t, Series):
                ctx.undecided(C, short(v))
                continue

            def judge():
                sums = {}
                rows = []
                for i, (s, ts) in enumerate(parts):
                    w = oracle(cols, ts, 'c%d_' % i, (), mx)
                    rows.append((s, s + 99, w))
                    for ac in w:
                        sums[ac] = sums.get(ac, Lin('num')).add(w[ac])
                rows.append((5000, 5099, {}))
                if not ctx.expect(len(d.idx.labels) == len(rows),
                                  'energy-results', C, '%d periods for %d '
                                  'chunks' % (len(d.idx.labels), len(rows)),
                                  LOC):
                    return
                for i, (s, e, w) in enumerate(rows):
                    row = dict(zip(d.cols.labels, [c[i] for c in d.data]))
                    ctx.expect(eqv(I, d.idx.labels[i], T(s)) and
                               eqv(I, row['end'], T(e)),
                               'energy-period', C, 'period %d is %s - %s' % (
                                   i, short(d.idx.labels[i]),
                                   short(row['end'])), LOC)
                    for ac in ('active', 'apparent'):
                        ctx.expect(eqv(I, row.get(ac, NAN), w.get(ac, NAN)),
                                   'energy-results', C, 'period %d, %s: %s '
                                   'expected %s' % (i, ac, short(
                                       row.get(ac)), w.get(ac)), LOC)
                got = dict(zip(t.idx.labels, t.vals))
                ctx.expect(set(got) == set(sums), 'energy-combined', C,
                           'types %s' % sorted(got), LOC)
                for ac in sums:
                    ctx.expect(ac in got and eqv(I, got[ac], sums[ac]),
                               'energy-combined', C, '%s: %s expected %s' % (
                                   ac, short(got.get(ac)), sums[ac]), LOC)
            guard(ctx, C, judge)


def required(ctx, I):
    C = 'TotalEnergy.required_measurements'
    LOC = 'nilmtk/stats/totalenergy.py'
    cls = ctx.anchor(I, 'nilmtk.stats.totalenergy.TotalEnergy')
    ms = [(q, a) for q in QUANT + ['voltage', 'current', 'power factor']
          for a in AC]
    meas = [{'physical_quantity': q, 'type': a} for q, a in ms]

    def go():
        node = I.call(cls, [], {})
        st = aval({'device': {'measurements': meas}})
        return I.call(I.getattr(node, 'required_measurements'), [st], {})
    for out, v, tr in each(ctx, I, C, go):
        if out == 'raise':
            ctx.violation('required', C, 'raises ' + exc_name(v), LOC)
            continue
        l = {key_of(x) for x in I.iterate(v)}
        want = {key_of(m) for m in ms if m[0] in QUANT}
        ctx.expect(l == want, 'required', C, 'asks for %s' % short(v), LOC)


# ------------------------------------------------------------------ dropout
def dropout(ctx, I):
    C = 'get_dropout_rate'
    LOC = 'nilmtk/stats/dropoutrate.py'
    f = ctx.anchor(I, 'nilmtk.stats.dropoutrate.' + C)
    base = [list(range(0, 10 * n, 10)) for n in range(0, 9)]
    base += [[0, 10, 20, 30, 100], [0, 1, 2, 3, 4, 5, 6],
             [0, 10, 20, 40, 50, 60, 70, 80, 90], [0, 10, 30, 50, 76],
             [0, 10, 20, 30, 44], [0, 10, 20, 30, 46], [0, 3, 4, 5, 1000]]
    for ts in base:
        for per in (10, 7, 1):
            for kind in ('frame', 'series', 'index'):
                if kind == 'index' and len(ts) < 5:
                    continue

                def go():
                    df = frame(ts, [('power', 'active')])
                    if not ts:
                        df.idx.dt = True
                    if kind == 'series':
                        df = df.column(0)
                    elif kind == 'index':
                        df = df.idx
                    return I.call(f, [df, per], {})
                for out, v, tr in each(ctx, I, C, go):
                    what = '%s with readings at %s, period %s' % (
                        kind, ts, per)
                    if out == 'raise':
                        ctx.violation('dropout', C, '%s: raises %s' % (
                            what, exc_name(v)), LOC)
                        continue
                    if len(ts) < 5:
                        ctx.expect(isnan(v), 'dropout-too-few', C,
                                   '%s: %s' % (what, short(v)), LOC)
                        continue
                    if not isinstance(v, (int, float)):
                        ctx.undecided(C, short(v))
                        continue
                    n = round(Fraction(ts[-1] - ts[0], per)) + 1
                    want = max(0.0, 1 - len(ts) / n)
                    ctx.expect(not isnan(v) and abs(v - want) < 1e-9,
                               'dropout', C, '%s: %s, expected %s' % (
                                   what, v, want), LOC)
    C = 'DropoutRate.process'
    cls = ctx.anchor(I, 'nilmtk.stats.dropoutrate.DropoutRate')
    parts = [[0, 10, 20, 30, 70], [1000 + 10 * i for i in range(7)],
             [2000, 2010, 2020, 2060, 2090, 2100]]

    def go():
        cs = [with_tf(I, frame(p, [('power', 'active')], 'c'), 1000 * i,
                      1000 * i + 500) for i, p in enumerate(parts)]
        node = I.call(cls, [Source(cs, aval(META))], {})
        I.call(I.getattr(node, 'run'), [], {})
        r = I.getattr(node, 'results')
        return I.call(I.getattr(r, 'combined'), [], {})
    for out, v, tr in each(ctx, I, C, go):
        want = 0
        tot = sum(len(p) for p in parts)
        for p in parts:
            want += max(0, 1 - len(p) / ((p[-1] - p[0]) / 10 + 1)) * len(p)
        want /= tot
        if out == 'raise':
            ctx.violation('dropout-combined', C, 'raises ' + exc_name(v),
                          LOC)
        elif not isinstance(v, (int, float)):
            ctx.undecided(C, short(v))
        else:
            ctx.expect(abs(v - want) < 1e-9, 'dropout-combined', C,
                       'chunks %s: %s, expected the mean weighted by the '
                       'number of readings, %s' % (parts, v, want), LOC)


# ------------------------------------------------------------ good sections
MAX = 10


def runs_of(ts, mx=MAX):
    """maximal runs of readings no further apart than mx"""
    out, cur = [], [ts[0]] if ts else []
    for a, b in zip(ts, ts[1:]):
        if b - a <= mx:
            cur.append(b)
        else:
            if len(cur) > 1:
                out.append((cur[0], cur[-1]))
            cur = [b]
    if len(cur) > 1:
        out.append((cur[0], cur[-1]))
    return out


def series_cases(nmax):
    for n in range(2, nmax + 1):
        for gaps in itertools.product((10, 11), repeat=n - 1):
            t = [0]
            for g in gaps:
                t.append(t[-1] + g)
            yield t
    yield [0, 1, 2, 50, 60, 70, 71, 200, 205]
    yield [0, 100, 200, 300, 301]
    yield [0, 9, 20, 29, 40, 49]


def obs_sections(I, v):
    out = []
    for s in I.iterate(v):
        a, b = I.getattr(s, 'start'), I.getattr(s, 'end')
        out.append((offset(a), offset(b)))
    return out


def offset(t):
    if t is None:
        return None
    if isinstance(t, Lin) and t.co == {'T': 1}:
        return float(t.const)
    raise Unk('instant %s' % short(t))


def chunked(ts, c):
    """row ranges as HDFDataStore.load delivers them"""
    n = len(ts)
    if c is None:
        return [(0, n)]
    return [(i, min(i + c, n - 1) + 1) for i in range(0, n - 1, c)]


def good(ctx, I):
    C = 'GoodSections.process'
    LOC = 'nilmtk/stats/goodsections.py'
    cls = ctx.anchor(I, 'nilmtk.stats.goodsections.GoodSections')
    meta = merged(META, {'device': {'max_sample_period': MAX}})
    nmax = 7 if ctx.tier == 'thorough' else 6
    for ts in series_cases(nmax):
        want = runs_of(ts)
        for c in (None, 1, 2, 3, 4):
            rs = chunked(ts, c)
            if c is not None and len(rs) == 1:
                continue

            def go():
                cs = []
                for i, (a, b) in enumerate(rs):
                    df = with_tf(I, frame(ts[a:b], [('power', 'active')],
                                          'c%d_' % i), ts[a], ts[b - 1])
                    la = ts[b:b + 2]
                    df.attrs['look_ahead'] = frame(
                        la, [('power', 'active')], 'l') if la else Frame()
                    cs.append(df)
                node = I.call(cls, [Source(cs, aval(meta))], {})
                I.call(I.getattr(node, 'run'), [], {})
                r = I.getattr(node, 'results')
                one = obs_sections(I, I.call(I.getattr(r, 'combined'), [],
                                             {}))
                try:
                    two = obs_sections(I, I.call(I.getattr(r, 'combined'),
                                                 [], {}))
                except AbstractRaise as e:
                    two = 'raises ' + exc_name(e.exc)
                return one, two
            for out, v, tr in each(ctx, I, C, go):
                what = 'readings at %s, limit %s, %s' % (
                    ts, MAX, 'one chunk' if c is None else
                    'chunks of %d' % (c + 1))
                if out == 'raise':
                    ctx.violation('good-sections', C, '%s: raises %s' % (
                        what, exc_name(v)), LOC)
                    continue
                one, two = v
                ctx.expect(one == want, 'good-sections', C,
                           '%s: good sections %s, expected %s' % (
                               what, one, want), LOC)
                ctx.expect(two == one, 'good-sections-repeatable',
                           'GoodSectionsResults.combined',
                           '%s: asked twice, first %s then %s' % (
                               what, one, two),
                           'nilmtk/stats/goodsectionsresults.py')
    # missing readings do not count, order of rows does not matter
    C = 'get_good_sections'
    f = ctx.anchor(I, 'nilmtk.stats.goodsections.' + C)
    for ts, holes in (([0, 10, 20, 30], [1]), ([0, 10, 20, 30, 40], [0]),
                      ([0, 5, 10, 15, 30], [1, 2]), ([0, 8, 10, 18, 20],
                                                     [4]),
                      ([0, 10], [0]), ([0], []), ([], [])):
        for perm in ('sorted', 'reversed'):
            def go():
                df = frame(ts, [('power', 'active')], 'c',
                           [(i, 0) for i in holes])
                if perm == 'reversed':
                    df = df.pick(list(range(len(ts)))[::-1])
                return obs_sections(I, I.call(f, [df, MAX], {}))
            for out, v, tr in each(ctx, I, C, go):
                what = 'readings at %s (%s), missing %s' % (ts, perm, holes)
                if out == 'raise':
                    ctx.violation('good-sections', C, '%s: raises %s' % (
                        what, exc_name(v)), LOC)
                    continue
                want = runs_of([t for i, t in enumerate(ts)
                                if i not in holes])
                ctx.expect(v == want, 'good-sections', C, '%s: %s, expected '
                           '%s' % (what, v, want), LOC)
    # a row counts when all its readings are present
    for lh, want in (([], [(0, None)]), ([(0, 1)], [(0, 10)]),
                     ([(1, 0)], [(0, None)])):
        def go():
            cs = [('power', 'active'), ('power', 'reactive')]
            return obs_sections(I, I.call(f, [
                frame([0, 10], cs), MAX,
                frame([20, 30], cs, 'l', lh)], {}))
        for out, v, tr in each(ctx, I, C, go):
            ctx.expect(out == 'return' and v == want, 'good-sections', C,
                       'two columns, missing in the look-ahead %s: %s, '
                       'expected %s' % (lh, v if out == 'return' else
                                        exc_name(v), want), LOC)
    for holes, want in (([(1, 0)], [0, 20, 25, 30, 35]),
                        ([(1, 1)], [0, 20, 25, 30, 35]),
                        ([(0, 0), (4, 1)], [10, 20, 25, 35]),
                        ([(2, 0), (2, 1)], [0, 10, 25, 30, 35])):
        def go():
            df = frame([0, 10, 20, 25, 30, 35], [
                ('power', 'active'), ('power', 'reactive')], 'c', holes)
            return obs_sections(I, I.call(f, [df, MAX], {}))
        for out, v, tr in each(ctx, I, C, go):
            ctx.expect(out == 'return' and v == runs_of(want),
                       'good-sections', C, 'two columns, missing %s: %s, '
                       'expected %s' % (holes, v if out == 'return' else
                                        exc_name(v), runs_of(want)), LOC)
    # one chunk on its own: every pattern of gaps, missing readings, what came
    # before and what comes after
    nmax = 5 if ctx.tier == 'thorough' else 4
    for n in range(0, nmax + 1):
        for gaps in itertools.product((10, 11), repeat=max(n - 1, 0)):
            ts = list(itertools.accumulate((0,) + gaps)) if n else []
            for holes in [()] + [(i,) for i in range(n)] + (
                    [tuple(range(n))] if n > 1 else []):
                for prev in (False, True):
                    for la in (None, [], [10], [11], [-5, 10], [-5]):
                        one_chunk(ctx, I, f, ts, holes, prev, la)
    # a stream with missing readings, cut in small chunks
    ts = [0, 3, 6, 9, 12, 15, 18, 50, 53, 90, 93]
    for c in (None, 2, 3, 4):
        for miss in ((9,), (12, 15), (9, 12, 15, 18), (53,), (0, 3),
                     (18, 50)):
            want = runs_of([t for t in ts if t not in miss])

            def go():
                cs = []
                for i, (a, b) in enumerate(chunked(ts, c)):
                    def fr(x, tag):
                        return frame(x, [('power', 'active')], tag,
                                     [(j, 0) for j, t in enumerate(x)
                                      if t in miss])
                    df = with_tf(I, fr(ts[a:b], 'c%d_' % i), ts[a],
                                 ts[b - 1])
                    la = ts[b:b + 6]
                    df.attrs['look_ahead'] = fr(la, 'l') if la else Frame()
                    cs.append(df)
                node = I.call(cls, [Source(cs, aval(meta))], {})
                I.call(I.getattr(node, 'run'), [], {})
                return obs_sections(I, I.call(I.getattr(I.getattr(
                    node, 'results'), 'combined'), [], {}))
            for out, v, tr in each(ctx, I, 'GoodSections.process', go):
                ctx.expect(out == 'return' and v == want, 'good-sections',
                           'GoodSections.process', 'readings at %s, missing '
                           '%s, chunks of %s: %s, expected %s' % (
                               ts, miss, c, v if out == 'return' else
                               'raises ' + exc_name(v), want), LOC)
    # a look-ahead that starts with a missing reading
    for ts, la, want in (([0, 10, 20], [25, 30], [(0, None)]),
                         ([0, 10, 20], [31], [(0, 20)]),
                         ([0, 10, 30], [31], [(0, 10), (30, None)]),
                         ([0, 10, 30], [31.0], [(0, 10), (30, None)])):
        def go():
            df = frame(ts, [('power', 'active')])
            l = frame(la, [('power', 'active')], 'l')
            return obs_sections(I, I.call(f, [df, MAX, l], {}))
        for out, v, tr in each(ctx, I, C, go):
            ctx.expect(out == 'return' and v == want,
                       'good-sections-look-ahead', C,
                       'readings at %s followed by %s: %s, expected %s' % (
                           ts, la, v if out == 'return' else exc_name(v),
                           want), LOC)


def one_chunk(ctx, I, f, ts, holes, prev, la):
    """la: distance of each look-ahead reading from the last reading of the
    chunk; negative for a missing one"""
    C = 'get_good_sections'
    LOC = 'nilmtk/stats/goodsections.py'
    have = [t for i, t in enumerate(ts) if i not in holes]
    base = have[-1] if have else 0
    ahead = [base + abs(x) for x in la or []]

    def go():
        df = frame(ts, [('power', 'active')], 'c', [(i, 0) for i in holes])
        args = [df, MAX]
        l = None
        if la is not None:
            l = frame(ahead, [('power', 'active')], 'l',
                      [(i, 0) for i, x in enumerate(la) if x < 0]) \
                if la else Frame()
        return obs_sections(I, I.call(f, [df, MAX, l, prev], {}))
    nxt = [a for a, x in zip(ahead, la or []) if x > 0]
    if not have:
        want = [(None, None)] if prev else []
    else:
        link = [prev] + [b - a <= MAX for a, b in zip(have, have[1:])] + \
            [bool(nxt) and nxt[0] - have[-1] <= MAX]
        want, start, on = [], None, prev
        for i, t in enumerate(have):
            if link[i + 1] and not link[i]:
                start, on = t, True
            elif link[i] and not link[i + 1]:
                want.append((start, t))
                on = False
        if on:
            want.append((start, None))
    for out, v, tr in each(ctx, I, C, go):
        ctx.expect(out == 'return' and v == want, 'good-sections-chunk', C,
                   'readings at %s, missing %s, previous chunk %s, next '
                   'readings %s later (negative: missing): %s, expected %s' % (
                       ts, list(holes), 'open' if prev else 'closed', la,
                       v if out == 'return' else 'raises ' + exc_name(v),
                       want), LOC)


def combined(ctx, I):
    """far-apart chunks: open ends are closed at the chunk, not joined"""
    C = 'GoodSectionsResults.combined'
    LOC = 'nilmtk/stats/goodsectionsresults.py'
    cls = ctx.anchor(I, 'nilmtk.stats.goodsectionsresults.'
                     'GoodSectionsResults')
    tf = ctx.anchor(I, 'nilmtk.timeframe.TimeFrame')

    def fr(a, b):
        return I.call(tf, [None if a is None else T(a),
                           None if b is None else T(b)], {})
    cases = [
        ([((0, 100), [(0, None)]), ((500, 600), [(None, 540)])],
         [(0, 100), (500, 540)]),
        ([((0, 100), [(0, 50)]), ((100, 200), [(150, 180)])],
         [(0, 50), (150, 180)]),
        ([((0, 100), [(0, None)]), ((100, 200), [(None, None)]),
          ((200, 300), [(None, 210), (250, 300)])], [(0, 210), (250, 300)]),
        ([((0, 100), [(0, 20), (40, None)])], [(0, 20), (40, 100)]),
        ([((0, 100), [(0, None)]), ((95, 200), [(None, 150)])],
         [(0, 150)]),
        ([((100, 200), [(None, 150)]), ((0, 100), [(0, None)])],
         [(0, 150)])]
    for rows, want in cases[:4] + cases[5:]:
        def go():
            r = I.call(cls, [MAX], {})
            for (a, b), secs in rows:
                I.call(I.getattr(r, 'append'), [
                    fr(a, b), ADict([('sections', AList([AList(
                        [fr(*s) for s in secs])]))])], {})
            v = I.call(I.getattr(r, 'combined'), [], {})
            last = list(I.iterate(v))[-1]
            return obs_sections(I, v), I.getattr(last, 'include_end')
        for out, v, tr in each(ctx, I, C, go):
            if out == 'raise':
                ctx.violation('good-sections-join', C, '%s: raises %s' % (
                    rows, exc_name(v)), LOC)
                continue
            ctx.expect(v[0] == want, 'good-sections-join', C,
                       '%s: %s, expected %s' % (rows, v[0], want), LOC)
            ctx.expect(v[1] is True, 'good-sections-last-reading', C,
                       'the last section does not include its end', LOC)
