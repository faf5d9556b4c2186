"""C22  A disaggregated data set holds every prediction under its meter."""
import itertools
from .tablecommon import *
from .c10 import T, offset
from .c12 import name
from .c20 import (frame, outcome, table_of, num, close, fake_cluster, Hidden,
                  LEARNT, shift_models, mse, switched, tested, stretches,
                  pickle_models, hidden, pairs)
from fsmodel import FS
from tables import toarr

EXPLANATION = (
    'The methods of nilmtk.legacy.disaggregate are trained on stand-ins for '
    'groups of meters and asked to disaggregate enumerated mains (several '
    'chunks, short ones, missing readings, several buildings and options) '
    'into a store which notes what is appended and saved. Tables, keys and '
    'metadata are compared with each other and with the mains. Clustering, '
    'mean shift and hidden Markov models are stand-ins as in C20.')
ASSUMPTIONS = [
    'sklearn, scipy and hmmlearn fit, score and predict as documented',
    'the meters hand out chunks as C12, C14 and C15 decide']
LIMITS = ('Appliances metered by meter 1 of the training building, mains '
          'without any reading (Hart85, MLE), two-dimensional Hart 85 and '
          'the sample period MLE notes for the mains are left unspecified.')
MIN_OBLIGATIONS = 300
DIS = 'nilmtk/legacy/disaggregate/'
MOD = 'nilmtk.legacy.disaggregate.'
COL = ('power', 'active')


class App(Dom):
    __slots__ = ('t', 'i')

    def __init__(self, t, i):
        self.t, self.i = t, i

    def __repr__(self):
        return '<%s %d>' % (self.t, self.i)

    def d_truth(self, I):
        return True

    def d_deepcopy(self, I, memo):
        return self

    def d_getattr(self, I, n):
        if n == 'identifier':
            return Rec({'type': self.t, 'instance': self.i}, (self.t, self.i))
        if n == 'type':
            return aval({'type': self.t})
        if n == 'metadata':
            return aval({'type': self.t, 'instance': self.i})
        return NotImplemented


class Rec(Dom):
    __slots__ = ('a', 'seq')

    def __init__(self, a, seq=()):
        self.a, self.seq = a, seq

    def d_truth(self, I):
        return True

    def d_getattr(self, I, n):
        return self.a.get(n, NotImplemented)

    def d_getitem(self, I, k):
        if isinstance(k, int) and self.seq:
            return self.seq[k]
        return NotImplemented


class Meter(Dom):
    """chunks: lists of cells with their first instant"""
    __slots__ = ('inst', 'chunks', 'apps', 'nm', 'b', 'log', 'attrs', 'col')

    def __init__(self, inst, chunks, apps=(), nm='', b=1, col=COL):
        self.inst, self.chunks, self.apps = inst, list(chunks), list(apps)
        self.nm, self.b, self.log, self.col = nm, b, [], col
        self.attrs = {'store': Rec({'store': Rec({'filename':
                                                  'file of %s' % (inst,)})})}

    def __repr__(self):
        return '<meter %s>' % (self.inst,)

    def d_truth(self, I):
        return True

    def d_key(self):
        return ('meter', self.inst, self.b)

    def d_deepcopy(self, I, memo):
        # pickled: another meter of the same identity
        st = self.attrs['store']
        if isinstance(st, Rec):
            I.throw('TypeError', 'cannot pickle a store')
        m = Meter(self.inst, self.chunks, self.apps, self.nm, self.b,
                  self.col)
        m.attrs = dict(self.attrs)
        return m

    def d_setattr(self, I, n, v):
        self.attrs[n] = v

    def series(self, I, c):
        cells, start = c
        s = Series([float(x) for x in cells], Idx(
            [T(start + 60 * i) for i in range(len(cells))], dt=True),
            name=self.col)
        if len(cells) > 1:
            s.attrs['timeframe'] = I.call(
                I.get('nilmtk.timeframe.TimeFrame'),
                [T(start), T(start + 60 * (len(cells) - 1))], {})
        else:
            s.attrs['timeframe'] = I.call(
                I.get('nilmtk.timeframe.TimeFrame'),
                [T(start), T(start + 60)], {})
        return s

    def d_getattr(self, I, n):
        if n in self.attrs:
            return self.attrs[n]
        if n == 'instance':
            return Native(lambda I, a, k: self.inst, n)
        if n == 'building':
            return Native(lambda I, a, k: self.b, n)
        if n == 'appliances':
            return AList(list(self.apps))
        if n == 'name':
            return self.nm
        if n == 'identifier':
            a = self.apps[0]
            return Rec({'instance': self.inst}, (a.t, a.i))
        if n == 'sample_period':
            return Native(lambda I, a, k: 60, n)
        if n == 'good_sections':
            def good(I, a, k):
                self.log.append(('good_sections', dict(k)))
                return AList(['sections of %s' % self.b])
            return Native(good, n)
        if n in ('power_series', 'load'):
            def get(I, a, k):
                if a:
                    raise Unk('%s(%s)' % (n, a))
                self.log.append((n, {x: pyval(v) for x, v in k.items()}))

                def go():
                    for c in self.chunks:
                        s = self.series(I, c)
                        if n == 'load':
                            f = frame(c[0], (self.col,))
                            f = Frame(s.idx, f.cols, f.data)
                            f.attrs['timeframe'] = s.attrs['timeframe']
                            s = f
                        yield s
                return AGen(go())
            return Native(get, n)
        return NotImplemented


class Group(Dom):
    __slots__ = ('ms', 'main')

    def __init__(self, ms, main=None):
        self.ms, self.main = list(ms), main

    def d_truth(self, I):
        return True

    def d_len(self, I):
        return len(self.ms)

    def d_getattr(self, I, n):
        if n == 'meters':
            return AList(([self.main] if self.main else []) + self.ms)
        if n == 'submeters':
            return Native(lambda I, a, k: Group(self.ms), n)
        if n == 'mains':
            return Native(lambda I, a, k: self.main, n)
        return NotImplemented

    def d_iter(self, I):
        return iter(([self.main] if self.main else []) + self.ms)

    def d_getitem(self, I, k):
        for m in self.ms:
            if m.inst == k or any(a.t == k for a in m.apps):
                return m
        I.throw('KeyError', k)


class Store(Dom):
    __slots__ = ('tabs', 'meta')

    def __init__(self):
        self.tabs, self.meta = [], {}

    def d_truth(self, I):
        return True

    def d_getattr(self, I, n):
        if n == 'append':
            def append(I, a, k):
                key = a[0] if a else k['key']
                v = a[1] if len(a) > 1 else k['value']
                if not isinstance(v, Frame):
                    raise Undecided('append(%s)' % short(v))
                self.tabs.append((key, v.d_copy(I) if hasattr(
                    v, 'd_copy') else v))
            return Native(append, n)
        if n == 'save_metadata':
            def save(I, a, k):
                key = a[0] if a else k['key']
                m = a[1] if len(a) > 1 else k['metadata']
                self.meta[pyval(key)] = m
            return Native(save, n)
        return NotImplemented


def plain(v):
    """nested metadata, time stamps as offsets"""
    if isinstance(v, ADict):
        return {plain(k): plain(x) for k, x in v.pairs}
    if isinstance(v, AList):
        return [plain(x) for x in v.items]
    if isinstance(v, Lin):
        return num(v) if not v.co else ('ts', float(offset(v)))
    if isinstance(v, Opq):
        for a in v.args:
            if isinstance(a, Lin) and a.kind == 'ts':
                return plain(a)
        return v
    return pyval(v)


def run(ctx):
    deep = ctx.tier == 'thorough'
    co(ctx, deep)
    co_states(ctx)
    fhmm(ctx, deep)
    across(ctx, deep)
    hart(ctx, deep)
    pairs(ctx, deep, ('nilmtk.legacy.disaggregate',))
    hart_kept(ctx)
    matched(ctx)
    mle(ctx, deep)
    untrained(ctx)
    kept(ctx)


def tables(store, key):
    return [v for k, v in store.tabs if pyval(k) == key]


def written(ctx, C, loc, what, st, mains, chunks, meters, sample, model,
            rows=None):
    """tables and metadata of one building; -> [{instance: cells}] per chunk

    meters: {instance: [(type, instance) of its appliances], ...}
    """
    base = '/building%s/elec/meter' % mains.b
    keys = {pyval(k) for k, v in st.tabs}
    mine = {k for k in keys if k.startswith('/building%s/' % mains.b)}
    if not chunks:
        ctx.expect(not mine and not st.meta, 'nothing', C, '%s: no chunk is '
                   'usable but %s and metadata of %s are written' % (
                       what, sorted(mine), sorted(st.meta)), loc)
        return None
    want = {base + str(i) for i in [1] + list(meters)}
    if not ctx.expect(mine == want, 'keys', C, '%s: tables %s, expected %s'
                      % (what, sorted(mine), sorted(want)), loc):
        return None
    out = [{} for c in chunks]
    for i in [1] + list(meters):
        ts = tables(st, base + str(i))
        cells = []
        for f in ts:
            labels, cols = table_of(f)
            ctx.expect(list(cols) == [mains.col], 'columns', C,
                       '%s: meter %s has columns %s, the mains %s' % (
                           what, i, list(cols), mains.col), loc)
            for j, l in enumerate(labels):
                cells.append((float(offset(l)), f.data[0][j]))
        exp = []
        for n, (c, start) in enumerate(chunks):
            for j, x in enumerate(c):
                if rows is None or i == 1 or rows(x):
                    exp.append((n, j, float(start + 60 * j), x))
        if not ctx.expect([t for t, x in cells] == [e[2] for e in exp],
                          'rows', C, '%s: meter %s has rows at %s for mains '
                          'at %s' % (what, i, [t for t, x in cells][:300],
                                     [e[2] for e in exp][:300]), loc):
            return None
        for (t, x), (n, j, t2, m) in zip(cells, exp):
            if i == 1:
                ctx.expect(close(num(x), float(m)), 'mains', C,
                           '%s: mains %s at %s, were %s' % (what, x, t, m),
                           loc)
            else:
                out[n].setdefault(i, []).append(num(x))
    # ---- metadata
    lo = min(s for c, s in chunks)
    hi = max(s + 60 * (len(c) - 1) for c, s in chunks)
    span = {'start': ('ts', float(lo)), 'end': ('ts', float(hi))}
    root = plain(st.meta.get('/', aval({})))
    b = plain(st.meta.get('/building%s' % mains.b, aval({})))
    if not ctx.expect(root and b, 'metadata', C, '%s: metadata only for %s'
                      % (what, sorted(st.meta)), loc):
        return out
    ctx.expect(b.get('instance') == mains.b, 'metadata', C,
               '%s: building %s' % (what, b.get('instance')), loc)
    em = b.get('elec_meters', {})
    ctx.expect(set(em) == {1} | set(meters), 'metadata', C, '%s: meters %s '
               'described, %s written' % (what, sorted(em, key=str),
                                          sorted(mine)), loc)
    for i, d in em.items():
        ctx.expect(d.get('data_location') == base + str(i), 'metadata', C,
                   '%s: data of meter %s at %s' % (
                       what, i, d.get('data_location')), loc)
        ctx.expect(d.get('statistics', {}).get('timeframe') == span,
                   'timeframe', C, '%s: meter %s holds %s, expected %s' % (
                       what, i, d.get('statistics'), span), loc)
        site = bool(d.get('site_meter', False))
        ctx.expect(site == (i == 1) and (i == 1 or d.get('submeter_of')
                                         in (1, 0)), 'wiring', C,
                   '%s: meter %s is %s' % (what, i, d), loc)
        dev = root.get('meter_devices', {}).get(d.get('device_model'))
        if ctx.expect(dev is not None, 'device', C, '%s: meter %s is a %s, '
                      'which is not described' % (
                          what, i, d.get('device_model')), loc):
            ms = [(x.get('physical_quantity'), x.get('type'))
                  for x in dev.get('measurements', [])]
            ctx.expect(ms == [mains.col], 'device', C, '%s: meter %s '
                       'measures %s' % (what, i, ms), loc)
            if sample is not None and (i != 1 or model != 'MLE'):
                # MLE writes the mains as they were
                ctx.expect(dev.get('sample_period') == sample and
                           dev.get('max_sample_period') == sample,
                           'device', C, '%s: meter %s sampled every %s, at '
                           'most %s, expected %s' % (
                               what, i, dev.get('sample_period'),
                               dev.get('max_sample_period'), sample), loc)
    ctx.expect(root.get('timeframe') == span, 'timeframe', C,
               '%s: data set holds %s, expected %s' % (
                   what, root.get('timeframe'), span), loc)
    apps = sorted((a.get('type'), a.get('instance'), tuple(a.get(
        'meters', ()))) for a in b.get('appliances', []))
    exp = sorted((t, n, (i,)) for i, (aps, nm) in meters.items()
                 for t, n in aps)
    ctx.expect(apps == exp, 'appliances', C, '%s: appliances %s, expected '
               '%s' % (what, apps, exp), loc)
    for i, (aps, nm) in meters.items():
        if nm and i in em:
            ctx.expect(em[i].get('name') == nm, 'metadata', C,
                       '%s: meter %s is called %s, not %s' % (
                           what, i, em[i].get('name'), nm), loc)
    return out


def asked(ctx, C, loc, what, mains, call, kw):
    """the mains were asked for the readings wanted"""
    got = [k for n, k in mains.log if n == call]
    ok = len(got) >= 1 and all(all(
        k.get(x) == v for x, v in kw.items()) and all(
            k.get(x) is None for x in k if x not in kw and x not in
            ('ac_type', 'physical_quantity', 'columns'))
        for k in got)
    ctx.expect(ok, 'load', C, '%s: mains.%s is called with %s, expected %s'
               % (what, call, got, kw), loc)


MAINS = [0, 20, 40, 55, 99, 141, 590, 1000, 1100, 1200, 5000, -7]


def big(n, start=0):
    return ([MAINS[(i + start // 7) % len(MAINS)] for i in range(n)], start)


def kwargs():
    yield {}, {'sample_period': 60, 'sections': ['sections of 1']}
    yield {'sample_period': 10}, {'sample_period': 10,
                                  'sections': ['sections of 1']}
    yield {'resample_seconds': 30}, {'sample_period': 30,
                                     'sections': ['sections of 1']}
    yield {'sections': ['mine'], 'chunksize': 7}, {
        'sample_period': 60, 'sections': ['mine'], 'chunksize': 7}


# ------------------------------------------------------------------------- CO
def co(ctx, deep):
    C, loc = 'CombinatorialOptimisation', DIS + \
        'combinatorial_optimisation.py'
    fs = FS()
    models = dict(TM, **fs.models())
    models.update(pickle_models())
    I = ctx.interp(models=models)
    cls = ctx.anchor(I, MOD + 'combinatorial_optimisation.'
                     'CombinatorialOptimisation')
    I.overrides['nilmtk.feature_detectors.cluster.cluster'] = fake_cluster
    defs = {3: ([0, 100], [App('kettle', 1)], 'k'),
            5: ([0, 40, 1000], [App('fridge', 1), App('freezer', 2)], ''),
            4: ([0, NAN, 25], [App('kettle', 2)], None),
            6: ([0, 0], [App('lamp', 1)], 'never on'),
            (7, 8): ([0, 60], [App('washer', 1)], 'w')}
    groups = [s for n in (1, 2) for s in itertools.permutations(defs, n)]
    groups += [(3, 5, 4), (5, (7, 8), 3)]
    mains = [[big(100)], [big(99)], [], [big(101, 0), big(20, 9000), big(
        150, 20000)], [big(3), big(100, 600)], [([], 0), big(120, 60)],
        [big(100), big(99, 8000)]]
    for g in groups:
        for mi, cs in enumerate(mains):
            for ki, (kw, want) in enumerate(kwargs()):
                if ki and (mi != 3 or g not in ((3,), (3, 5, 4))):
                    continue
                b = {4: 12, 5: 2, 6: 30}.get(mi, 1)
                if ki == 0:
                    want = dict(want, sections=['sections of %d' % b])
                what = 'meters %s, chunks of %s, %s' % (
                    g, [len(c) for c, s in cs], kw)
                run_ = {}

                def go():
                    ms = [Meter(i, [(defs[i][0], 0)], defs[i][1],
                                defs[i][2]) for i in g]
                    m = I.call(cls, [], {})
                    I.call(I.getattr(m, 'train'), [Group(ms, Meter(
                        1, []))], {})
                    run_['mains'] = Meter(1, cs, b=b)
                    st = Store()
                    I.call(I.getattr(m, 'disaggregate'),
                           [run_['mains'], st], {x: aval(v) for x, v in
                                                 kw.items()})
                    return st
                for st in outcome(ctx, I, C, what, go, 'co', loc):
                    def look():
                        ok = [c for c in cs if len(c[0]) >= 100]
                        meters = {i: ([(a.t, a.i) for a in defs[i][1]],
                                      defs[i][2]) for i in g}
                        asked(ctx, C, loc, what, run_['mains'],
                              'power_series', want)
                        got = written(ctx, C, loc, what, st, run_['mains'],
                                      ok, meters, want['sample_period'],
                                      'CO')
                        nearest(ctx, C, loc, what, got, ok,
                                {i: sorted({0.} | {float(x) for x in
                                                   defs[i][0] if not
                                                   isnan(x)}) for i in g})
                    guard(ctx, C, look)
    ctx.absorb(I)


def co_states(ctx):
    """the number of states asked for counts the one of being off"""
    C, loc = 'CombinatorialOptimisation', DIS + \
        'combinatorial_optimisation.py'
    I = ctx.interp(models=dict(TM))
    cls = ctx.anchor(I, MOD + 'combinatorial_optimisation.'
                     'CombinatorialOptimisation')
    seen = []

    def clustered(I, a, k):
        seen.append([pyval(x) for x in a[1:]] + [
            pyval(k[x]) for x in ('max_num_clusters', 'exact_num_clusters')
            if x in k])
        return fake_cluster(I, a, k)
    I.overrides['nilmtk.feature_detectors.cluster.cluster'] = clustered
    for s in ({3: 4}, {5: 2}, {3: 3, 5: 6}, {}):
        what = 'states asked for %s' % s

        def go():
            seen[:] = []
            ms = [Meter(i, [([0, 10. * i], 0)], [App('kettle', i)])
                  for i in (3, 5)]
            m = I.call(cls, [], {})
            I.call(I.getattr(m, 'train'), [Group(ms, Meter(1, [])), ADict(
                [(x, s[x.inst]) for x in ms if x.inst in s])], {})
            return list(seen)
        for v in outcome(ctx, I, C, what, go, 'co-states', loc):
            want = [s[i] - 1 if i in s else None for i in (3, 5)]
            got = [x[1] if len(x) > 1 else None for x in v]
            ctx.expect(got == want, 'states', C, '%s: clusters besides off '
                       '%s, expected %s' % (what, got, want), loc)

    def go():
        m = I.call(cls, [], {})
        out = []
        for i in (3, 5, 7):
            x = Meter(i, [([0, 10. * i], 0)], [App('kettle', i)])
            c = x.series(I, x.chunks[0])
            I.call(I.getattr(m, 'train_on_chunk'), [c, x, 3, None], {})
            mains = Meter(1, [([0., 30., 50., 80., 150.] * 20, 0)])
            out.append(I.call(I.getattr(m, 'disaggregate_chunk'), [
                mains.series(I, mains.chunks[0])], {}))
        return out
    for v in outcome(ctx, I, C, 'trained meter by meter', go, 'co-states',
                     loc):
        def look():
            for n, f in enumerate(v):
                if not isinstance(f, Frame):
                    raise Unk(short(f))
                got = {m.inst: [num(x) for x in d]
                       for m, d in zip(f.cols.labels, f.data)}
                ctx.expect(set(got) == {3, 5, 7} & set(range(
                    2 * n + 4)), 'increments', C, 'trained on %d meters: '
                    'predicts %s' % (n + 1, sorted(got)), loc)
                powers = [10. * i for i in (3, 5, 7)[:n + 1]]
                sums = [sum(t) for t in itertools.product(
                    *[(0., p) for p in powers])]
                for j, x in enumerate([0., 30., 50., 80., 150.] * 20):
                    y = sum(d[j] for d in got.values())
                    ctx.expect(close(abs(y - x), min(
                        abs(z - x) for z in sums)), 'increments', C,
                        'trained on %d meters: mains %s predicted as %s' % (
                            n + 1, x, y), loc)
        guard(ctx, C, look)
    ctx.absorb(I)


def nearest(ctx, C, loc, what, got, chunks, states):
    if not got:
        return
    sums = [sum(c) for c in itertools.product(*states.values())]
    for (c, s), cols in zip(chunks, got):
        for j, x in enumerate(c):
            p = {i: cols[i][j] for i in states}
            ok = all(p[i] in states[i] for i in states) and close(abs(sum(
                p.values()) - x), min(abs(x - y) for y in sums))
            ctx.expect(ok, 'nearest', C, '%s: mains %s explained by %s' % (
                what, x, p), loc)


# ----------------------------------------------------------------------- FHMM
def as_tables(cols, chunks, nan=False):
    """what hidden() of C20 takes: a table per chunk"""
    out = []
    for (c, s), d in zip(chunks, cols):
        out.append(Frame(Idx([T(s + 60 * i) for i in range(len(c))],
                             dt=True), Idx(list(d)), [list(x) for x in
                                                      d.values()]))
    return AList(out)


def hmm_interp(ctx, w, fs=None):
    models = dict(TM, **w.models())
    if fs is not None:
        models.update(fs.models())
    models.update(pickle_models())
    # memory in bytes; only a warning depends on it
    models['psutil.virtual_memory'] = lambda I, a, k: Rec({
        'total': 1 << 34, 'available': 1 << 33})
    I = ctx.interp(models=models)
    I.overrides['nilmtk.feature_detectors.cluster.cluster'] = \
        lambda I, a, k: Arr(list(range(len(LEARNT[toarr(
            I, a[0]).cells[0]][0]))))
    return I


TRAIN = {'a': [1., 50., NAN, 60.], 'b': [NAN, 2., 0., 7.], 'c': [3., 50.],
         'd': [4., 50., 60.], 'e': [5., NAN, 60.], 'f': [6., 50.], 'g': []}
INST = {x: i for i, x in enumerate('abcdefg', 3)}


def fhmm(ctx, deep):
    C, loc = 'FHMM', DIS + 'fhmm_exact.py'
    w = Hidden()
    I = hmm_interp(ctx, w)
    cls = ctx.anchor(I, MOD + 'fhmm_exact.FHMM')
    sets = [s for n in (1, 2) for s in itertools.permutations('abcdef', n)]
    sets += list(itertools.permutations('abc', 3)) + [
        ('d', 'a', 'b'), ('g', 'a'), ('a', 'g', 'b')]
    if deep:
        sets += list(itertools.permutations('abdf', 4))
    for s in sets:
        trained = [x for x in s if TRAIN[x]]
        sizes = [len(LEARNT['abcdefg'.index(x) + 1][0]) for x in trained]
        N = 1
        for z in sizes:
            N *= z
        for ki, (kw, want) in enumerate(kwargs()):
            if ki and s not in (('a',), ('b', 'c')):
                continue
            for how in ('', 'meter', 'appliance', 'type', 'parts'):
                if how and (ki or len(s) < 2 or s[0] != 'a'):
                    continue
                run_ = {}
                kinds = ['type ', 'other '] if how == 'parts' else ['type ']
                cs = [(list(range(N)), 0), ([0], 50000), (
                    [N - 1, 0, N // 2], 90000), ([], 95000),
                    ([0, N - 1], 99000)]
                what = 'meters %s%s, %s' % (s, ', states given by ' + how
                                            if how else '', kw)

                def go():
                    w.__init__()
                    ms = [Meter(INST[x], [(TRAIN[x], 0)], [App(
                        t + x, i + 1) for i, t in enumerate(kinds)],
                        'name ' + x) for x in s]
                    m = I.call(cls, [], {})
                    I.setattr(m, 'MIN_CHUNK_LENGTH', 2)
                    a = [Group(ms, Meter(1, []))]
                    if how:
                        z = dict(zip(trained, sizes))
                        a.append(ADict([
                            (p, n) for x, y in zip(s, ms) if x in z
                            for p, n in zip(y.apps, (1, z[x] - 1))]
                            if how == 'parts' else [
                            (y if how == 'meter' else y.apps[0] if how ==
                             'appliance' else y.apps[0].t, z[x])
                            for x, y in zip(s, ms) if x in z]))
                    I.call(I.getattr(m, 'train'), a, {})
                    run_['mains'] = Meter(1, cs)
                    st = Store()
                    I.call(I.getattr(m, 'disaggregate'),
                           [run_['mains'], st], {x: aval(v) for x, v in
                                                 kw.items()})
                    return st
                for st in outcome(ctx, I, C, what, go, 'fhmm', loc):
                    def look():
                        ok = [c for c in cs if len(c[0]) >= 2]
                        meters = {INST[x]: ([(t + x, i + 1) for i, t in
                                             enumerate(kinds)],
                                            'name ' + x) for x in trained}
                        asked(ctx, C, loc, what, run_['mains'],
                              'power_series', want)
                        got = written(ctx, C, loc, what, st, run_['mains'],
                                      ok, meters, want['sample_period'],
                                      'FHMM')
                        if not got:
                            return
                        tab = as_tables([{x: d[INST[x]] for x in trained}
                                         for d in got], ok)
                        hidden(ctx, C, loc, what, w, trained,
                               {x: [TRAIN[x]] for x in trained},
                               [Frame(f.idx, Idx([COL]), [[float(y) for y in
                                                           c]])
                                for f, (c, t) in zip(tab.items, ok)], tab)
                        if how:
                            ctx.expect([n for x, n in w.fits] == sizes,
                                       'states', C, '%s: %s states fitted, '
                                       'expected %s' % (what, [
                                           n for x, n in w.fits], sizes),
                                       loc)
                    guard(ctx, C, look)
    # missing readings of the mains have no prediction; the rest do
    for c in ([0, NAN, 1, 3], [NAN, 2, 2], [3, 1, NAN, NAN]):
        what = 'mains %s' % c
        run_ = {}

        def go():
            w.__init__()
            ms = [Meter(INST[x], [(TRAIN[x], 0)], [App('type ' + x, 1)],
                        '') for x in 'ab']
            m = I.call(cls, [], {})
            I.setattr(m, 'MIN_CHUNK_LENGTH', 2)
            I.call(I.getattr(m, 'train'), [Group(ms)], {})
            run_['mains'] = Meter(1, [(c, 0)])
            st = Store()
            I.call(I.getattr(m, 'disaggregate'), [run_['mains'], st], {})
            return st
        for st in outcome(ctx, I, C, what, go, 'fhmm', loc):
            guard(ctx, C, lambda: written(
                ctx, C, loc, what, st, run_['mains'], [(c, 0)],
                {INST[x]: ([('type ' + x, 1)], '') for x in 'ab'}, 60,
                'FHMM', rows=lambda x: not isnan(x)))
    ctx.absorb(I)


class Buildings(Dom):
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def d_truth(self, I):
        return True

    def d_getattr(self, I, n):
        if n == 'buildings':
            return ADict([(b, Rec({'elec': g})) for b, g in self.d.items()])
        return NotImplemented


def across(ctx, deep):
    """one model for several buildings"""
    C, loc = 'FHMM across buildings', DIS + 'fhmm_exact.py'
    w = Hidden()
    I = hmm_interp(ctx, w)
    cls = ctx.anchor(I, MOD + 'fhmm_exact.FHMM')
    # types in the buildings; the meters have other numbers in each
    houses = {1: 'ab', 2: 'ba', 3: 'a', 4: 'abf'}
    for train, least in (([1, 2], None), ([2, 4], None),
                         ([1, 2, 4], .86), ([4, 1, 2], .5)):
        for test in ([3, 4], [4, 3], [1], [2, 1]):
            if least and test != [3, 4]:
                continue
            used = [b for b in train if not least or
                    (b + 5.) / (b + 6) > least]
            for kw, extra in (({}, {}), ({'sample_period': 10}, {
                    'sample_period': 10}), ({'sections': ['mine']}, {
                        'sections': ['mine']})):
                what = 'trained on buildings %s, tested on %s, %s' % (
                    train, test, kw if not least else least)
                types = 'ab'
                hs = {}
                for b, h in houses.items():
                    ms = [Meter(INST[x] + 10 * b, [(
                        [float('abcdefg'.index(x) + 1), 50., 70.] + [90.] * (
                            b + 3), 0)], [App('type ' + x, 1)], b=b)
                        for x in h]
                    hs[b] = Group(ms, Meter(1, [
                        ([0, 1, 2, 3], 1000 * b), ([3, 3], 1000 * b + 9000)],
                        b=b))
                I.overrides['nilmtk.metergroup.MeterGroup.'
                            'select_using_appliances'] = \
                    lambda I, a, k: Group([m for g in hs.values()
                                           for m in g.ms if any(
                                               x.t == k['type']
                                               for x in m.apps)])

                def go():
                    w.__init__()
                    for g in hs.values():
                        g.main.log[:] = []
                    ds = Buildings(hs)
                    m = I.call(cls, [], {})
                    I.setattr(m, 'MIN_CHUNK_LENGTH', 2)
                    I.call(I.getattr(m, 'train_across_buildings'),
                           [ds, AList(list(train)), AList(
                               ['type ' + x for x in types])],
                           {'min_activation': least} if least else {})
                    st = Store()
                    I.call(I.getattr(m, 'disaggregate_across_buildings'),
                           [ds, st, AList(list(test))],
                           {x: aval(v) for x, v in kw.items()})
                    return st
                for st in outcome(ctx, I, C, what, go, 'across', loc):
                    def look():
                        fits = [[y for b in used for y in hs[b].d_getitem(
                            I, 'type ' + x).chunks[0][0]] for x in types]
                        lens = [[len(hs[b].d_getitem(
                            I, 'type ' + x).chunks[0][0]) for b in used]
                            for x in types]
                        ctx.expect(w.lengths == lens, 'training-sequences',
                                   C, '%s: fitted to sequences of %s, '
                                   'expected %s' % (what, w.lengths, lens),
                                   loc)
                        ctx.expect([x for x, n in w.fits] == fits,
                                   'training-readings', C, '%s: fitted to '
                                   '%s, expected %s' % (
                                       what, [x for x, n in w.fits], fits),
                                   loc)
                        for b in test:
                            want = dict({'sample_period': 60, 'sections': [
                                'sections of %d' % b]}, **extra)
                            asked(ctx, C, loc, what, hs[b].main,
                                  'power_series', want)
                            one = Store()
                            one.tabs = st.tabs
                            one.meta = dict(st.meta)
                            got = building(
                                ctx, C, loc, what, one, hs[b].main, {
                                    m.inst: ([(a.t, a.i) for a in m.apps],
                                             '')
                                    for m in hs[b].ms if m.apps[0].t[-1]
                                    in types}, b == test[-1],
                                want['sample_period'])
                            if got:
                                decoded(ctx, C, loc, what, w, hs[b].main,
                                        got, {INST[x] + 10 * b: x
                                              for x in types})
                    guard(ctx, C, look)
    ctx.absorb(I)


def decoded(ctx, C, loc, what, w, mains, got, types):
    """each combined state is predicted as the states it is made of"""
    model = w.asked[0][1]
    mu = [num(c) for c in toarr(None, model.attrs['means_']).cells]
    par = [LEARNT['abcdefg'.index(x) + 1][1] for x in types.values()]
    for (c, s), cols in zip(mains.chunks, got):
        for j, x in enumerate(c):
            hit = [t for t in itertools.product(*par)
                   if close(sum(t), mu[int(x)])]
            want = {i: float(round(hit[0][n])) for n, i in enumerate(types)
                    if i in cols} if hit else None
            ctx.expect(want == {i: cols[i][j] for i in cols}, 'decoding', C,
                       '%s: state %s predicted as %s, expected %s' % (
                           what, x, {i: cols[i][j] for i in cols}, want),
                       loc)


def building(ctx, C, loc, what, st, mains, meters, last, sample):
    lo = min(s for c, s in mains.chunks)
    hi = max(s + 60 * (len(c) - 1) for c, s in mains.chunks)
    if not last:
        # what the data set as a whole says is written for each building
        root = st.meta.get('/')
        if isinstance(root, ADict):
            for i, (k, v) in enumerate(root.pairs):
                if k == 'timeframe':
                    root = ADict([p for p in root.pairs if p[0] != k] + [
                        (k, aval({'start': T(lo), 'end': T(hi)}))])
            st.meta['/'] = root
    return written(ctx, C, loc, what, st, mains, mains.chunks, meters, sample,
            'FHMM')


# --------------------------------------------------------------------- Hart85
def hart(ctx, deep):
    C, loc = 'Hart85', DIS + 'hart_85.py'
    w = []
    models = dict(TM)
    models.update(shift_models(w))
    models['sklearn.metrics.mean_squared_error'] = mse
    I = ctx.interp(models=models)
    cls = ctx.anchor(I, MOD + 'hart_85.Hart85')
    trains = [
        ({'a': 500.}, 24, 50., [('a', 3, 8), ('a', 12, 17), ('a', 19, 22)]),
        ({'a': 500., 'b': 200.}, 40, 50., [
            ('a', 3, 8), ('a', 12, 18), ('b', 15, 25), ('b', 28, 33),
            ('a', 35, 38)])]
    for apps, n, b, runs in trains:
        tests = [t for t in tested(apps, deep) if t and t != [40.]]
        mains, app = switched(n, b, apps, runs)
        groups = [tests[i:i + 6] for i in range(0, len(tests), 6)]
        P = sorted(apps.values())
        on = [50.] * 3 + [50. + P[0]] * 3 + [50.] * 3 + [50. + P[-1]] * 3 + [
            50.] * 2
        groups = [g + [on] for g in groups] + [[on], [on, on], [
            [40.] * 4, on]]
        groups += [[[40.] * 5]]
        for gi, g in enumerate(groups):
            for ki, (kw, want) in enumerate(kwargs()):
                if ki and gi:
                    continue
                cs = [(c, 12000 * i) for i, c in enumerate(g)]
                what = 'trained on %s, %d chunks, %s' % (apps, len(g), kw)
                run_ = {}

                def go():
                    w[:] = []
                    m = I.call(cls, [], {})
                    I.call(I.getattr(m, 'train'), [Meter(
                        1, [(mains, 0)])], {})
                    run_['mains'] = Meter(1, cs)
                    st = Store()
                    I.call(I.getattr(m, 'disaggregate'),
                           [run_['mains'], st], {x: aval(v) for x, v in
                                                 kw.items()})
                    return st
                for st in outcome(ctx, I, C, what, go, 'hart', loc):
                    def look():
                        meters = {i + 2: ([('unknown', i + 1)], '')
                                  for i in range(len(apps))}
                        for c in ('power_series', 'load'):
                            asked(ctx, C, loc, what, run_['mains'], c, want)
                        got = written(ctx, C, loc, what, st, run_['mains'],
                                      cs, meters, want['sample_period'],
                                      'Hart85')
                        if not got:
                            return
                        which = {}
                        for i in meters:
                            vals = {x for d in got for x in d[i]} - {0.}
                            hit = [a for a in apps if float(int(apps[a]))
                                   in vals or apps[a] in vals]
                            if len(vals) > 1 or len(hit) > 1:
                                ctx.violation('stretches', C, '%s: meter %d '
                                              'has power %s' % (
                                                  what, i, sorted(vals)),
                                              loc)
                                return
                            if hit:
                                which[hit[0]] = i
                        if len(which) < len(apps):
                            ctx.expect(len(g) == 1 and g[0] == [40.] * 5,
                                       'stretches', C, '%s: only %s are '
                                       'ever on' % (what, which), loc)
                            return
                        for (c, s), d in zip(cs, got):
                            stretches(ctx, C, loc, what, apps, c,
                                      {a: d[i] for a, i in which.items()})
                    guard(ctx, C, look)
    ctx.absorb(I)


def hart_kept(ctx):
    """exported and imported, Hart85 predicts what it did"""
    C, loc = 'Hart85', DIS + 'hart_85.py'
    w, fs = [], FS()
    models = dict(TM)
    models.update(shift_models(w))
    models.update(fs.models())
    I = ctx.interp(models=models)
    I.fs = fs
    cls = ctx.anchor(I, MOD + 'hart_85.Hart85')
    mains, app = switched(40, 50., {'a': 500., 'b': 200.}, [
        ('a', 3, 8), ('a', 12, 18), ('b', 15, 25), ('b', 28, 33),
        ('a', 35, 38)])
    # changes of 30, 90, 200 and 500 W: which count depends on the levels
    test = [50.] * 3 + [80.] * 3 + [170.] * 3 + [250.] * 3 + [550.] * 3 + [
        50.] * 3
    for noise, thresh in ((None, None), (100, 40), (25, 10), (120, 15),
                          (70, 100)):
        kw = {} if noise is None else {'noise_level': noise,
                                       'state_threshold': thresh}

        def go():
            fs.__init__()
            I.fs = fs
            w[:] = []
            m = I.call(cls, [], {})
            I.call(I.getattr(m, 'train'), [Meter(1, [(mains, 0)])],
                   dict(kw))
            out = []
            for twice in (False, True):
                st = Store()
                I.call(I.getattr(m, 'disaggregate'),
                       [Meter(1, [(test, 0), (test[6:], 9000)]), st], {})
                out.append(st)
                if not twice:
                    I.call(I.getattr(m, 'export_model'), ['model'], {})
                    m = I.call(cls, [], {})
                    I.call(I.getattr(m, 'import_model'), ['model'], {})
            return out
        what = 'trained with %s' % kw
        for st, st2 in outcome(ctx, I, C, what, go, 'kept', loc):
            def look():
                keys = sorted({pyval(k) for k, t in st.tabs})
                ctx.expect(keys == sorted({pyval(k) for k, t in st2.tabs}),
                           'kept', C, '%s: other meters once imported' %
                           what, loc)
                for key in keys:
                    p, q = [[table_of(t) for t in tables(x, key)]
                            for x in (st, st2)]
                    ctx.expect([x[1] for x in p] == [x[1] for x in q],
                               'kept', C, '%s, exported and imported: other '
                               'readings at %s: %s, were %s' % (
                                   what, key, [x[1] for x in q],
                                   [x[1] for x in p]), loc)
            guard(ctx, C, look)
    ctx.absorb(I)


class Submeters(Dom):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def d_truth(self, I):
        return True

    def d_getattr(self, I, n):
        if n == 'dataframe_of_meters':
            return Native(lambda I, a, k: self.f, n)
        return NotImplemented


def matched(ctx):
    """each prediction goes with the meter it differs least from"""
    C, loc = 'Hart85.best_matched_appliance', DIS + 'hart_85.py'
    models = dict(TM)
    models['sklearn.metrics.mean_squared_error'] = mse
    I = ctx.interp(models=models)
    cls = ctx.anchor(I, MOD + 'hart_85.Hart85')
    kinds = [[0, 1000, 0, 990], [400, 0, 410, 0], [0, 0, 60, 60],
             [900, 900, 0, 0]]
    for n in (1, 2, 3):
        for p in itertools.permutations(range(4), n):
            for shift in (0, 1):
                pred = [[x * 1.05 + 3 for x in kinds[i]] for i in p]
                cols = [('m', i) for i in range(len(kinds))]
                tab = Frame(Idx([T(60 * i) for i in range(4)], dt=True),
                            Idx(list(range(n))), pred)
                subs = Frame(Idx([T(60 * (i + shift)) for i in range(4)],
                                 dt=True), Idx(cols), [
                                     list(map(float, x)) for x in kinds])

                def go():
                    return I.call(I.getattr(I.call(cls, [], {}),
                                            'best_matched_appliance'),
                                  [Submeters(subs), tab], {})
                what = '%s with meters %s, %d s later' % (pred, kinds,
                                                          60 * shift)
                want = []
                for j, x in enumerate(pred):
                    err = [sum((a - b) ** 2 for a, b in zip(x[shift:], y))
                           for y in kinds]
                    want.append((j, ('m', err.index(min(err)))))
                    if sorted(err)[0] == sorted(err)[1]:
                        want = None
                        break
                for v in outcome(ctx, I, C, what, go, 'matches', loc):
                    guard(ctx, C, lambda: ctx.expect(
                        want is None or v is not None and
                        [tuple(x) for x in pyval(v)] == want, 'matches', C, '%s: %s, expected %s' % (
                            what, pyval(v), want), loc))
    ctx.absorb(I)


# ------------------------------------------------------------------------ MLE
class Dist(Dom):
    """scipy's normal distribution, and the frozen ones"""
    __slots__ = ('kind', 'mu', 'sd')

    def __init__(self, kind, mu=None, sd=None):
        self.kind, self.mu, self.sd = kind, mu, sd

    def __repr__(self):
        return '<%s(%s, %s)>' % (self.kind, self.mu, self.sd)

    def d_truth(self, I):
        return True

    def d_call(self, I, a, k):
        if self.kind == 'norm':
            return Dist('norm', num(arg_(a, k, 0, 'loc', 0)),
                        num(arg_(a, k, 1, 'scale', 1)))
        return Dist(self.kind, num(arg_(a, k, 0, 'mu', 0)))

    def d_getattr(self, I, n):
        if n == 'fit' and self.kind == 'norm' and self.mu is None:
            def fit(I, a, k):
                x = toarr(I, a[0])
                if x is None:
                    raise Undecided('norm.fit(%s)' % short(a[0]))
                x = [num(c) for c in x.cells]
                if not x:
                    I.throw('RuntimeError', 'The data contains no values')
                mu = sum(x) / len(x)
                return (mu, (sum((y - mu) ** 2 for y in x) / len(x)) ** .5)
            return Native(fit, n)
        if n == 'pdf' and self.kind == 'norm' and self.mu is not None:
            return Native(lambda I, a, k: pdf(self, num(a[0])), n)
        return NotImplemented


def arg_(a, k, i, n, d):
    return a[i] if len(a) > i else k.get(n, d)


def pdf(d, x):
    import math
    if d.sd == 0:
        return NAN
    z = (x - d.mu) / d.sd
    return math.exp(-z * z / 2) / (d.sd * math.sqrt(2 * math.pi))


def mle(ctx, deep):
    C, loc = 'MLE', DIS + 'maximum_likelihood_estimation.py'
    models = dict(TM)
    models['scipy.stats.norm'] = lambda I, a, k: Dist('norm').d_call(I, a, k)
    models['scipy.stats.poisson'] = lambda I, a, k: Dist('poisson', 0)
    models['scipy.stats.norm.fit'] = lambda I, a, k: I.call(
        Dist('norm').d_getattr(I, 'fit'), a, k)
    models['sklearn.mixture.GaussianMixture'] = lambda I, a, k: Rec({})
    I = ctx.interp(models=models)
    cls = ctx.anchor(I, MOD + 'maximum_likelihood_estimation.MLE')
    base = [0, 0, 0, 1000, 1000, 1000, 0, 0, 0, 1010, 1010, 0, 20, 0, 990, 0,
            0]
    trains = [
        {3: [base]}, {3: [base, base[3:]]},
        {3: [base], 4: [[30, 800, 900, 900, 20, 700, 700, 0]]},
        {3: [[5, 960, 960, 400, 400, 0, 0, 1020, 20], []], 4: [base]},
        {4: [[0, 10, 20], base, [700] * 9 + [0, 900] * 3 + [30]]},
        {3: [base, [0] * 2 + [1000] * 8 + [0]]}]
    on = 1000
    tests = [[0, 0, on, on, 0, 0, 0], [0] * 4, [40, on, 40], [on, on, 0, 0],
             [0, 0, on, on], [10, 1010, 1210, 200, 10, 10],
             [0, on, on, 1900, 900, 900, 0], [0, 995, 995, 0, 0, 1005, 0],
             [0, on, on, 0, on, 0], [0, 60, 60, 0, 970, 0],
             [0, on, 2000, on, 0], [0, on, on, 60, 60, 0, 0],
             [0, 900, 900, 900, 0, 1000, 0], [500, 500, 1480, 500, 0, 0]]
    pars = [dict(), dict(powerNoise=70), dict(powerPair=30),
            dict(timeWindow=130), dict(thLikelihood=1e-7)]
    for tr in trains:
        for par in pars:
            if par and tr != trains[0] and tr != trains[2]:
                continue
            par = dict({'thDelta': 50, 'powerNoise': 50, 'powerPair': 100,
                        'timeWindow': 3000, 'thLikelihood': 0}, **par)
            what = 'trained on %s, %s' % (tr, par)
            cs = [(c, 12000 * i) for i, c in enumerate(tests)]
            run_ = {}

            def go():
                m = I.call(cls, [], {})
                I.call(I.getattr(m, 'update'), [], dict(
                    {'appliance': 'toaster', 'resistive': True,
                     'sample_period': '60s', 'sampling_method': 'mean'},
                    **par))
                I.call(I.getattr(m, 'train'), [Group([Meter(j, [
                    (c, 12000 * i) for i, c in enumerate(cs_)],
                    [App('toaster', j)]) for j, cs_ in tr.items()])], {})
                run_['mains'] = Meter(1, cs)
                st = Store()
                I.call(I.getattr(m, 'disaggregate'), [run_['mains'], st],
                       {})
                return st, m
            for st, m in outcome(ctx, I, C, what, go, 'mle', loc):
                def look():
                    feats = learnt(ctx, I, C, loc, what, m, tr, par)
                    got = written(ctx, C, loc, what, st, run_['mains'], cs,
                                  {2: ([('toaster', 1)], 'toaster')}, 60,
                                  'MLE')
                    if not got or not feats:
                        return
                    for (c, s), cols in zip(cs, got):
                        want = likeliest(c, feats, par)
                        if want is None:
                            continue
                        ctx.expect(all(map(close, cols[2], want)),
                                   'likeliest', C, '%s: mains %s hold %s, '
                                   'expected %s' % (what, c, cols[2], want),
                                   loc)
                guard(ctx, C, look)
    resampled(ctx, I, cls, C, loc, base)
    # other units than the model's
    for resistive in (False, True):
        def go():
            m = I.call(cls, [], {})
            I.call(I.getattr(m, 'update'), [], {
                'appliance': 'toaster', 'resistive': resistive,
                'sample_period': '60s', 'sampling_method': None,
                'thDelta': 50, 'powerNoise': 50, 'powerPair': 100,
                'timeWindow': 3000})
            I.call(I.getattr(m, 'train'), [Group([Meter(
                3, [(base, 0)], [App('toaster', 1)])])], {})
            st = Store()
            I.call(I.getattr(m, 'disaggregate'), [Meter(
                1, [(base, 0)], col=('power', 'apparent')), st], {})
            return st
        for o, v, tr_ in each(ctx, I, C, go):
            ctx.expect((o == 'return') == resistive and (
                resistive or exc_name(v) == 'ValueError'), 'units', C,
                'trained on active, used for apparent power, %sresistive: '
                '%s' % ('' if resistive else 'not ', name(v)
                        if o != 'return' else 'no complaint'), loc)
    ctx.absorb(I)


def resampled(ctx, I, cls, C, loc, base):
    """two readings in each sample"""
    f = {None: lambda x: sum(x) / len(x), 'mean': lambda x: sum(x) / len(x),
         'max': max, 'sum': sum}
    alt = [0, 20, 1000, 1040, 990, 1010, 0, 10, 5, 0, 1020, 1060, 0, 0, 970,
           990, 1000, 970, 0, 0]
    par = {'thDelta': 50, 'powerNoise': 50, 'powerPair': 100,
           'timeWindow': 3000, 'thLikelihood': 0}
    for how in f:
        for period in ('120s', '2min'):
            what = 'samples of %s by %s' % (period, how)

            def go():
                m = I.call(cls, [], {})
                I.call(I.getattr(m, 'update'), [], dict(
                    {'appliance': 'toaster', 'resistive': True,
                     'sample_period': period, 'sampling_method': how},
                    **par))
                I.call(I.getattr(m, 'train'), [Group([Meter(
                    3, [(alt, 0)], [App('toaster', 3)])])], {})
                st = Store()
                I.call(I.getattr(m, 'disaggregate'), [Meter(
                    1, [(alt, 0), (alt[2:14], 12000)]), st], {})
                return st
            for st in outcome(ctx, I, C, what, go, 'mle', loc):
                def look():
                    coarse = [[f[how](x[i:i + 2]) for i in range(
                        0, len(x), 2)] for x in (alt, alt[2:14])]
                    fs = features(coarse[0], par['thDelta'])
                    fs = [(x, y, 2 * t) for x, y, t in fs]
                    feats = []
                    for w in zip(*fs):
                        w = [t for t in w if w is not None]
                        mu = sum(w) / len(w)
                        feats.append(Dist('norm', mu, (sum(
                            (t - mu) ** 2 for t in w) / len(w)) ** .5))
                    got = {}
                    for t in tables(st, '/building1/elec/meter2'):
                        for l, c in zip(t.idx.labels, t.data[0]):
                            got[float(offset(l))] = num(c)
                    want = {}
                    for c, s in zip(coarse, (0, 12000)):
                        w = likeliest(c, feats, par, 120)
                        if w is None:
                            return
                        for i, x in enumerate(w):
                            want[float(s + 120 * i)] = x
                    ctx.expect(set(got) == set(want) and all(
                        close(got[t], want[t]) for t in got), 'likeliest', C,
                        '%s: %s, expected %s' % (what, got, want), loc)
                    dev = plain(st.meta['/'])['meter_devices']
                    em = plain(st.meta['/building1'])['elec_meters']
                    d = dev[em[2]['device_model']]
                    ctx.expect(d.get('sample_period') == 120 and d.get(
                        'max_sample_period') == 120, 'device', C,
                        '%s: described as %s' % (what, d), loc)
                guard(ctx, C, look)


def features(c, th):
    """[(on, off, seconds)] of one chunk"""
    c = [0 if x < th else x for x in c]
    d = [(i, c[i] - c[i - 1]) for i in range(1, len(c))
         if abs(c[i] - c[i - 1]) > th]
    return [(x, y, 60 * (j - i)) for (i, x), (j, y) in zip(d, d[1:])
            if x > 0 > y]


def learnt(ctx, I, C, loc, what, m, tr, par):
    on, off, dur, stats = [], [], [], {}
    for j, cs in tr.items():
        for c in cs:
            f = features(c, par['thDelta']) if c else []
            on += [x for x, y, t in f]
            off += [y for x, y, t in f]
            dur += [t for x, y, t in f]
            if c:
                stats['toaster', j] = stats.get(('toaster', j), 0) + len(f)
    dur = [t for t in dur if t < 400]
    out = []
    for n, want in (('onpower', on), ('offpower', off), ('duration', dur)):
        t = I.getattr(m, n + '_train')
        x = [num(y) for y in t.data[0]]
        ctx.expect(x == [float(y) for y in want], 'features', C,
                   '%s: %s is learnt from %s, expected %s' % (
                       what, n, x, want), loc)
        mu = sum(want) / len(want)
        out.append(Dist('norm', mu, (sum((y - mu) ** 2 for y in want) /
                                     len(want)) ** .5))
    got = {(s.get('appliance'), s.get('instance')): s.get('Nevents')
           for s in pyval(I.getattr(m, 'stats'))}
    ctx.expect(got == stats, 'features', C, '%s: events %s, expected %s' % (
        what, got, stats), loc)
    return out if all(d.sd for d in out) else None


def likeliest(c, feats, par, step=60):
    """power of the likeliest pairs of events which do not overlap; None if
    the order of two of them is open"""
    d = [(i, c[i] - c[i - 1]) for i in range(1, len(c))]
    n = par['powerNoise']
    pairs = []
    for i, x in d:
        if x <= n:
            continue
        for j, y in d:
            if j > i and y < -n and step * (j - i) < par['timeWindow'] and \
                    abs(x + y) < par['powerPair']:
                p = pdf(feats[0], x) * pdf(feats[1], y) * pdf(
                    feats[2], step * (j - i))
                if p >= par['thLikelihood']:
                    if abs(p - par['thLikelihood']) < 1e-12 and \
                            par['thLikelihood']:
                        return None
                    pairs.append((p, i, j, x))
    pairs.sort(reverse=True)
    out = [0.] * len(c)
    for k, (p, i, j, x) in enumerate(pairs):
        for q, a, b, y in pairs[:k]:
            if abs(q - p) <= 1e-9 * q and a < j and i < b:
                return None
        if not any(out[i:j]):
            out[i:j] = [float(x)] * (j - i)
    return out


# ---------------------------------------------------- untrained; kept in files
def untrained(ctx):
    for mod, cn in (('combinatorial_optimisation',
                     'CombinatorialOptimisation'), ('fhmm_exact', 'FHMM'),
                    ('hart_85', 'Hart85')):
        I = ctx.interp(models=dict(TM))
        cls = ctx.anchor(I, MOD + mod + '.' + cn)
        mains = Meter(1, [big(100)])
        st = Store()

        def go():
            return I.call(I.getattr(I.call(cls, [], {}), 'disaggregate'),
                          [mains, st], {})
        for o, v, tr in each(ctx, I, cn, go):
            ctx.expect(o != 'return' and exc_name(v) == 'RuntimeError' and
                       not st.tabs and not st.meta, 'untrained', cn,
                       'disaggregating without a model: %s' % (
                           name(v) if o != 'return' else 'no complaint'),
                       DIS + mod + '.py')
        ctx.absorb(I)


def kept(ctx):
    """a model exported and imported says the same; exporting leaves the
    meters with their stores"""
    for mod, cn in (('combinatorial_optimisation',
                     'CombinatorialOptimisation'), ('fhmm_exact', 'FHMM')):
        fs = FS()
        w = Hidden()
        I = hmm_interp(ctx, w, fs)
        if cn != 'FHMM':
            I.overrides['nilmtk.feature_detectors.cluster.cluster'] = \
                fake_cluster
        opened = []

        def reopen(I, a, k):
            opened.append(a[0])
            return Rec({'store': Rec({'filename': a[0]})})
        I.overrides['nilmtk.datastore.hdfdatastore.HDFDataStore'] = reopen
        cls = ctx.anchor(I, MOD + mod + '.' + cn)
        loc = DIS + mod + '.py'
        for s in ('ab', 'ba', 'a'):
            what = 'trained on %s' % s
            N = 2 ** len(s)
            mains = [big(100), big(120, 9000)] if cn != 'FHMM' else [
                ([i % N for i in range(100)], 0), ([N - 1] * 110, 9000)]
            ms = []

            def go():
                fs.__init__()
                I.fs = fs
                w.__init__()
                opened[:] = []
                ms[:] = [Meter(INST[x], [(TRAIN[x], 0)], [App(
                    'type ' + x, 1)], 'name ' + x) for x in s]
                old = [m.attrs['store'] for m in ms]
                m = I.call(cls, [], {})
                I.call(I.getattr(m, 'train'), [Group(ms)], {})
                st = Store()
                I.call(I.getattr(m, 'disaggregate'), [Meter(1, mains), st],
                       {})
                I.call(I.getattr(m, 'export_model'), ['model'], {})
                back = [x.attrs['store'] for x in ms]
                st2 = Store()
                I.call(I.getattr(m, 'disaggregate'), [Meter(1, mains), st2],
                       {})
                n = I.call(cls, [], {})
                I.call(I.getattr(n, 'import_model'), ['model'], {})
                st3 = Store()
                I.call(I.getattr(n, 'disaggregate'), [Meter(1, mains), st3],
                       {})
                return st, st2, st3, [x is y for x, y in zip(old, back)]
            for v in outcome(ctx, I, cn, what, go, 'kept', loc):
                def look():
                    st, st2, st3, same_ = v
                    ctx.expect(all(same_), 'stores', cn, '%s: exporting '
                               'replaces the store of a meter' % what, loc)
                    ctx.expect(sorted(opened) == sorted(
                        'file of %s' % m.inst for m in ms), 'stores', cn,
                        '%s: importing opens %s' % (what, opened), loc)
                    for other, how in ((st2, 'after exporting'), (
                            st3, 'exported and imported')):
                        for key in sorted({pyval(k) for k, t in st.tabs}):
                            p, q = [[table_of(t) for t in tables(x, key)]
                                    for x in (st, other)]
                            ok = [x[1] for x in p] == [x[1] for x in q]
                            ctx.expect(ok, 'kept', cn, '%s, %s: other '
                                       'readings at %s' % (what, how, key),
                                       loc)
                        a, b = [{k: plain(x.meta[k]) for k in x.meta
                                 if k != '/'} for x in (st, other)]
                        ctx.expect(a == b, 'kept', cn, '%s, %s: metadata '
                                   '%s, were %s' % (what, how, b, a), loc)
                guard(ctx, cn, look)
        ctx.absorb(I)
