"""C20  The methods predict what they have learnt, for every reading."""
import itertools
from .tablecommon import *
from .c10 import T, offset
from .c12 import name
from fsmodel import FS
from tables import toarr

EXPLANATION = (
    'The disaggregation methods are interpreted on enumerated training data '
    '(several frames, missing readings, retraining) and mains; clustering, '
    'mean shift and hidden Markov models are stand-ins that return '
    'parameters the check chooses, so what the code around them computes is '
    'decided exactly: which readings they are given, how their parameters '
    'are combined and decoded, and which rows and columns the predictions '
    'have. Edges and pairs of Hart 85 are compared with a direct statement '
    'of the algorithm.')
ASSUMPTIONS = [
    'sklearn and hmmlearn fit, score and predict as documented',
    'readings are numbers of representative sizes around the thresholds']
LIMITS = ('How close predictions are to the truth is a matter of the data. '
          'Hart 85 is judged on one column of power; its first and last row '
          'of a stretch of power and the last row of a chunk are left '
          'unspecified.')
MIN_OBLIGATIONS = 200
DIS = 'nilmtk/disaggregate/'
COL = ('power', 'active')


def frame(d, cols=(COL,), start=0):
    """table of readings: a list of cells (or rows), 10 s apart"""
    rows = [list(r) if isinstance(r, (list, tuple)) else [r] for r in d]
    return Frame(Idx([T(start + 10 * i) for i in range(len(rows))], dt=True),
                 Idx(list(cols), names=['physical_quantity', 'type']),
                 [[float(r[j]) for r in rows] for j in range(len(cols))])


def outcome(ctx, I, C, what, go, rule, loc):
    for o, v, tr in each(ctx, I, C, go):
        if o != 'return':
            ctx.violation(rule, C, '%s: %s' % (what, name(v)), loc)
            continue
        yield v


def params(d=()):
    return aval(dict(d))


def appliances(apps):
    return AList([(n, AList([frame(x) for x in fs])) for n, fs in apps])


def table_of(f):
    """(times, {column: cells}) of a table"""
    if not isinstance(f, Frame):
        raise Unk(short(f))
    cols = {}
    for c, d in zip(f.cols.labels, f.data):
        cols[pyval(c)] = [x if isnan(x) else num(x) for x in d]
    return f.idx.labels, cols


def num(x):
    if isinstance(x, Arr) and len(x.cells) == 1:
        x = x.cells[0]
    if isnan(x):
        return x
    if isinstance(x, Lin):
        if x.co:
            raise Unk(short(x))
        x = x.const
    if not isinstance(x, (bool, int, float)) and not hasattr(
            x, 'numerator'):
        raise Unk(short(x))
    return float(x)


def close(x, y):
    if isnan(x) or isnan(y):
        return isnan(x) and isnan(y)
    return abs(x - y) <= 1e-6 * max(1, abs(y))


def run(ctx):
    deep = ctx.tier == 'thorough'
    mean(ctx, deep)
    nearest(ctx, deep)
    co(ctx, deep)
    clusters(ctx, deep)
    fhmm(ctx, deep)
    sorting(ctx)
    steady(ctx, deep)
    pairs(ctx, deep)
    shift(ctx)
    hart(ctx, deep)
    hart_levels(ctx)


def rows(ctx, C, what, got, chunks, loc, times_=True):
    """one table per chunk, with a row per reading of the mains"""
    if not isinstance(got, AList):
        raise Unk(short(got))
    if not ctx.expect(len(got.items) == len(chunks), 'tables', C,
                      '%s: %d tables for %d chunks' % (
                          what, len(got.items), len(chunks)), loc):
        return []
    out = []
    for f, c in zip(got.items, chunks):
        labels, cols = table_of(f)
        if times_:
            ok = [key_of(x) for x in labels] == [
                key_of(x) for x in c.idx.labels]
        else:
            ok = len(labels) == len(c.idx.labels)
        if ctx.expect(ok, 'rows', C, '%s: rows %s for mains at %s' % (
                what, short(labels), short(c.idx.labels)), loc):
            out.append((c, cols))
    return out


# ----------------------------------------------------------------------- Mean
def mean(ctx, deep):
    C, loc = 'Mean', DIS + 'mean.py'
    fs = FS()
    I = ctx.interp(models=dict(TM, **fs.models()))
    I.models.update(json_models())
    cls = ctx.anchor(I, 'nilmtk.disaggregate.mean.Mean')
    parts = [[5, 7], [NAN, 3, 8], [0, 0], [], [NAN], [12]]
    trainings = [[[('a', [p])]] for p in parts]
    trainings += [[[('a', [p, q]), ('b', [q])]] for p in parts
                  for q in parts]
    trainings += [[[('a', [p])], [('a', [q]), ('b', [p, q])]]
                  for p in parts for q in parts]
    trainings += [[[('b', [p]), ('a', [q])], [('a', [p, r])], [('b', [r])]]
                  for p in parts for q in parts[:3] for r in parts[-2:]]
    if deep:
        trainings += [[[('a', [p, q])], [('a', [r])], [('a', [s, p])]]
                      for p, q, r, s in itertools.product(parts, repeat=4)]
    for calls in trainings:
        for way in ('memory', 'file'):
            what = 'trained on %s%s' % (
                calls, '' if way == 'memory' else ', saved and loaded')
            chunks = [frame([1, 2, NAN]), frame([]), frame([4], start=50)]

            def go():
                fs.__init__()
                I.fs = fs
                m = I.call(cls, [params({'save-model-path': 'here'}
                                        if way == 'file' else {})], {})
                for c in calls:
                    main = AList([frame([9] * len(x)) for x in c[0][1]])
                    I.call(I.getattr(m, 'partial_fit'),
                           [main, appliances(c)], {})
                if way == 'file':
                    m = I.call(cls, [params({'pretrained-model-path':
                                             'here'})], {})
                return I.call(I.getattr(m, 'disaggregate_chunk'),
                              [AList(chunks)], {})
            want = {}
            for c in calls:
                for a, fr in c:
                    want.setdefault(a, []).extend(
                        x for f in fr for x in f if not isnan(x))
            for v in outcome(ctx, I, C, what, go, 'mean', loc):
                def look():
                    for c, cols in rows(ctx, C, what, v, chunks, loc):
                        exp = {a: sum(x) / len(x) if x else 0.
                               for a, x in want.items()}
                        ok = set(cols) == set(exp) and all(
                            close(y, exp[a]) for a in cols for y in cols[a])
                        ctx.expect(ok, 'mean', C, '%s: %s, expected %s' % (
                            what, cols, exp), loc)
                guard(ctx, C, look)
    ctx.absorb(I)


class Text(Dom):
    """JSON text of a value"""
    __slots__ = ('v',)
    readable = True

    def __init__(self, v):
        self.v = v

    def d_truth(self, I):
        return True

    def d_method(self, I, n, a, k):
        if n in ('strip', 'rstrip', 'lstrip') and not a:
            return self
        return NotImplemented


def json_models():
    def plain(I, v):
        if isinstance(v, ADict):
            return {str(pyval(k)): plain(I, x) for k, x in v.pairs}
        if isinstance(v, (AList, tuple)):
            return [plain(I, x) for x in I.iterate(v)]
        if v is None or isinstance(v, (bool, int, float, str)):
            return v
        if isinstance(v, (Frame, Series, Arr)):
            I.throw('TypeError', 'not JSON serializable')
        raise Undecided(short(v))

    def dumps(I, a, k):
        return Text(plain(I, a[0]))

    def loads(I, a, k):
        return aval(a[0].v) if isinstance(a[0], Text) else NotImplemented

    def dump(I, a, k):
        return I.call(I.getattr(a[1], 'write'), [dumps(I, a, k)], {})

    def load(I, a, k):
        return loads(I, [I.call(I.getattr(a[0], 'read'), [], {})], k)
    return {'json.dumps': dumps, 'json.loads': loads, 'json.dump': dump,
            'json.load': load}


# -------------------------------------------------------------------- nearest
def nearest(ctx, deep):
    C, loc = 'find_nearest', 'nilmtk/utils.py'
    I = ctx.interp(models=dict(TM))
    f = ctx.anchor(I, 'nilmtk.utils.find_nearest')
    known = [p for n in (1, 2, 3, 4) for p in itertools.permutations(
        (0, 3, 10, 11), n)]
    known += [(5, 5), (0, 4, 4), (7, 0, 7), (-2, 6)]
    tests = [-50, -1, 0, 1, 1.5, 2, 3, 6, 6.5, 7, 10, 10.4, 10.5, 12, 99]
    if deep:
        known += list(itertools.product((0, 2, 5), repeat=3))
    for k in known:
        for shape in ((len(tests),), (len(tests), 1), (0, 1)):
            t = tests[:shape[0]]

            def go():
                return I.call(f, [Arr([float(x) for x in k]),
                                  Arr([float(x) for x in t], shape)], {})
            what = 'known %s' % (k,)
            for v in outcome(ctx, I, C, what, go, 'nearest', loc):
                def look():
                    ix, res = map(lambda x: toarr(I, x), v)
                    ctx.expect(tuple(ix.shape) == shape ==
                               tuple(res.shape), 'shape', C,
                               '%s: shapes %s and %s for %s' % (
                                   what, ix.shape, res.shape, shape), loc)
                    for x, i, r in zip(t, ix.cells, res.cells):
                        i = int(num(i))
                        ok = 0 <= i < len(k) and abs(x - k[i]) == min(
                            abs(x - y) for y in k) and close(
                            num(r), x - k[i])
                        ctx.expect(ok, 'nearest', C, '%s: for %s entry %s, '
                                   'off by %s' % (what, x, i, r), loc)
                guard(ctx, C, look)
    ctx.absorb(I)


# ------------------------------------------------------------------------- CO
def co(ctx, deep):
    C, loc = 'CO', DIS + 'combinatorial_optimisation.py'
    I = ctx.interp(models=dict(TM))
    cls = ctx.anchor(I, 'nilmtk.disaggregate.combinatorial_optimisation.CO')
    I.overrides['nilmtk.feature_detectors.cluster.cluster'] = fake_cluster
    A = [3, 0]
    learn = {'a': [[0, 100]], 'b': [[0, 40, 1000]], 'c': [[0]],
             'd': [[0, 60], [NAN, 25]], 'e': [[0, 100]]}
    mains = [0, 20, 40, 55, 99, 141, 590, 1000, 1100, 1200, 5000, -7]
    seqs = [[s] for n in (1, 2, 3) for s in itertools.permutations(
        'abcde', n)]
    seqs += [[s, t] for s in ('a', 'ab', 'dc') for t in ('b', 'a', 'ba',
                                                         'ce')]
    if deep:
        seqs += [[s] for s in itertools.permutations('abcde', 4)]
        seqs += [[s, t, u] for s in ('a', 'b') for t in ('c', 'bd')
                 for u in ('e', 'ae')]
    for calls in seqs:
        for between in (False, True):
            if between and len(calls) == 1:
                continue
            what = 'trained on %s%s' % (calls, ', used in between'
                                        if between else '')
            chunks = [frame(mains), frame([]), frame([70, 3], start=500)]

            def go():
                m = I.call(cls, [params()], {})
                for i, c in enumerate(calls):
                    if i and between:
                        I.call(I.getattr(m, 'disaggregate_chunk'),
                               [AList(chunks)], {})
                    # a second training has other readings
                    apps = [(x, [[y + (7 if i else 0) for y in f]
                                 for f in learn[x]]) for x in c]
                    I.call(I.getattr(m, 'partial_fit'), [
                        AList([frame([1, 2])]), appliances(apps)], {})
                return I.call(I.getattr(m, 'disaggregate_chunk'),
                              [AList(chunks)], {})
            states = {}
            for i, c in enumerate(calls):
                for x in c:
                    states.setdefault(x, sorted({0.} | {
                        y + (7 if i else 0.) for f in learn[x] for y in f
                        if not isnan(y)}))
            best = [sum(x) for x in itertools.product(*states.values())]
            for v in outcome(ctx, I, C, what, go, 'nearest-states', loc):
                def look():
                    for c, cols in rows(ctx, C, what, v, chunks, loc):
                        if not ctx.expect(
                                set(cols) == set(states), 'columns', C,
                                '%s: columns %s' % (what, sorted(cols)),
                                loc):
                            continue
                        for j, x in enumerate(c.data[0]):
                            p = {a: cols[a][j] for a in cols}
                            ok = all(p[a] in states[a] for a in p) and \
                                abs(sum(p.values()) - x) == min(
                                    abs(y - x) for y in best)
                            ctx.expect(ok, 'nearest-states', C, '%s: %s for '
                                       '%s, states %s' % (what, p, x,
                                                          states), loc)
                guard(ctx, C, look)
    ctx.absorb(I)


def fake_cluster(I, a, k):
    """the states are the readings themselves and off"""
    x = a[0] if a else k['X']
    if isinstance(x, Frame) and len(x.data) == 1:
        cells = x.data[0]
    elif isinstance(x, Series):
        cells = x.vals
    else:
        raise Undecided('cluster(%s)' % short(x))
    got = sorted({0} | {int(y) for y in cells if not isnan(y)})
    return Arr(got)


# -------------------------------------------------------------------- cluster
class KMeans(Dom):
    """takes the clusters the test wants; notes what it is given"""
    __slots__ = ('w', 'n', 'attrs')

    def __init__(self, w, n):
        self.w, self.n, self.attrs = w, n, {}

    def d_truth(self, I):
        return True

    def d_getattr(self, I, n):
        if n in self.attrs:
            return self.attrs[n]
        if n in ('fit', 'fit_predict'):
            def fit(I, a, k):
                x = toarr(I, a[0])
                if x is None or len(x.shape) != 2 or x.shape[1] != 1:
                    I.throw('ValueError', 'Expected 2D array')
                if x.shape[0] < self.n:
                    I.throw('ValueError', 'n_samples < n_clusters')
                self.w.seen.append([num(c) for c in x.cells])
                labels = Arr([i % self.n for i in range(x.shape[0])])
                self.attrs['labels_'] = labels
                self.attrs['cluster_centers_'] = Arr(
                    [float(c) for c in self.w.centres[self.n]],
                    (self.n, 1))
                return self if n == 'fit' else labels
            return Native(fit, n)
        return NotImplemented


class Clusters:
    def __init__(self, centres, scores):
        self.centres, self.scores, self.seen = centres, scores, []

    def models(self):
        def kmeans(I, a, k):
            n = k.get('n_clusters', a[0] if a else 8)
            if n not in self.centres:
                raise Undecided('%s clusters' % n)
            return KMeans(self, n)

        def silhouette(I, a, k):
            labels = toarr(I, a[1])
            n = len({num(c) for c in labels.cells})
            if n < 2 or n >= len(labels.cells) or \
                    self.scores.get(n) is None:
                I.throw('ValueError', 'Number of labels is %d' % n)
            return self.scores[n]
        return {'sklearn.cluster.KMeans': kmeans,
                'sklearn.metrics.silhouette_score': silhouette}


def clusters(ctx, deep):
    centres = {1: [40], 2: [100.4, 30.6], 3: [7, 99.5, 7.4],
               4: [90, 20, 20.2, 1500]}
    base = [0, 9, 10, 10.5, 11, NAN] + [float(20 + i) for i in range(18)]
    data = {'plenty': base, 'few': base[:20], 'none': [0, 5, 10, NAN] * 8,
            'just': base[:-1] + [10.01] * 1, 'empty': []}
    for mod in ('cluster', 'steady_states'):
        C, loc = mod + '.cluster', 'nilmtk/feature_detectors/%s.py' % mod
        scores = itertools.product((-.5, .2, .7), repeat=3)
        for sc in list(scores):
            for top in (2, 3, 4, 5):
                for what, d in data.items():
                    if what != 'plenty' and sc != (.2, .7, -.5):
                        continue
                    clustering(ctx, C, loc, mod, what, d, Clusters(
                        centres, dict(zip((2, 3, 4), sc))), top, None)
    for exact in (1, 2, 3, 4):
        clustering(ctx, 'cluster.cluster',
                   'nilmtk/feature_detectors/cluster.py', 'cluster',
                   'plenty', base, Clusters(centres, {2: .1, 3: .2, 4: .1}),
                   3, exact)


def clustering(ctx, C, loc, mod, what, d, w, top, exact):
    I = ctx.interp(models=dict(TM, **w.models()))
    f = I.get('nilmtk.feature_detectors.%s.cluster' % mod)
    use = sorted(x for x in d if x > 10)

    for kind in ('frame', 'series'):
        fr = frame(d)
        x = fr if kind == 'frame' else Series(list(fr.data[0]), fr.idx)

        def go():
            w.seen[:] = []
            return I.call(f, [x, top] + ([exact] if exact else []), {})
        for v in outcome(ctx, I, C, '%s readings in a %s' % (what, kind), go,
                         'states', loc):
            def look():
                got = [num(c) for c in toarr(I, v).cells]
                if len(use) < 20:
                    # too few readings above the threshold: all zero
                    ok = all(not any(s) for s in w.seen)
                    ctx.expect(ok, 'threshold', C, '%s: %s clustered' % (
                        what, w.seen[:1]), loc)
                else:
                    ctx.expect(all(sorted(s) == use for s in w.seen),
                               'threshold', C, '%s readings in a %s: %s '
                               'clustered, expected %s' % (
                                   what, kind, [s[:25] for s in w.seen[:1]],
                                   use), loc)
                ns = range(2, top)
                if exact:
                    ok = {exact}
                elif not list(ns):
                    ok = {1}
                else:
                    m = max(w.scores[n] for n in ns)
                    ok = {n for n in ns if w.scores[n] == m}
                want = [sorted({0.} | {float(round(c)) for c in
                                       w.centres[n]}) for n in ok]
                ctx.expect(got in want, 'states', C, '%s readings, at most '
                           '%s clusters, scores %s: %s, expected %s' % (
                               what, top, w.scores, got, want), loc)
            guard(ctx, C, look)
    ctx.absorb(I)


# ----------------------------------------------------------------------- FHMM
LEARNT = {  # readings -> start, means, covariances, transitions
    1: ([.25, .75], [100.4, 20.], [1., 2.],
        [[.1, .9], [.3, .7]]),
    2: ([.15, .85], [30., 60.6], [3., 4.], [[.45, .55], [.65, .35]]),
    3: ([.05, .25, .7], [55., 7., 300.], [5., 6., 7.],
        [[.11, .22, .67], [.31, .27, .42], [.47, .23, .3]]),
    4: ([.35, .65], [12., 12.], [8., 9.], [[.17, .83], [.29, .71]]),
    5: ([.13, .3, .57], [80., 5., 5.], [8., 9., 10.],
        [[.19, .28, .53], [.37, .41, .22], [.43, .33, .24]]),
    6: ([.28, .72], [.2, 40.], [8., 9.], [[.57, .43], [.38, .62]]),
    7: ([1.], [33.], [8.], [[1.]]),
}


class HMM(Dom):
    __slots__ = ('w', 'n', 'attrs')

    def __init__(self, w, n):
        self.w, self.n, self.attrs = w, n, {}

    def __repr__(self):
        return '<hmm %s>' % (self.n,)

    def d_truth(self, I):
        return True

    def d_setattr(self, I, n, v):
        self.attrs[n] = v

    def d_getattr(self, I, n):
        if n in self.attrs:
            return self.attrs[n]
        if n == 'n_components':
            return self.n
        if n == 'fit':
            def fit(I, a, k):
                x = toarr(I, a[0])
                if x is None or len(x.shape) != 2 or x.shape[1] != 1:
                    I.throw('ValueError', 'Expected 2D array')
                x = [num(c) for c in x.cells]
                if not x:
                    I.throw('ValueError', 'no samples')
                self.w.fits.append((x, self.n))
                ls = a[1] if len(a) > 1 else k.get('lengths')
                if ls is not None:
                    ls = [int(num(c)) for c in toarr(I, ls).cells] \
                        if not isinstance(ls, AList) else [
                            int(num(c)) for c in ls.items]
                self.w.lengths.append(ls)
                pi, mu, cov, A = LEARNT[x[0]]
                if len(pi) != self.n:
                    I.throw('ValueError', 'fitted with %s states instead of '
                            '%s' % (self.n, len(pi)))
                m = len(pi)
                self.attrs.update(
                    startprob_=Arr(list(pi)), means_=Arr(list(mu), (m, 1)),
                    covars_=Arr(list(cov), (m, 1, 1)),
                    transmat_=Arr([c for r in A for c in r], (m, m)))
                return self
            return Native(fit, n)
        if n == 'predict':
            def predict(I, a, k):
                x = toarr(I, a[0])
                if x is None or len(x.shape) != 2 or x.shape[1] != 1:
                    I.throw('ValueError', 'Expected 2D array')
                x = [num(c) for c in x.cells]
                self.w.asked.append((x, self))
                # the mains say which state
                if any(c < 0 or c >= self.n for c in x):
                    raise Undecided('no such state in %s' % x)
                return Arr([int(c) for c in x])
            return Native(predict, n)
        return NotImplemented


class Hidden:
    def __init__(self):
        self.fits, self.asked, self.lengths = [], [], []

    def models(self):
        def make(I, a, k):
            n = a[0] if a else k.get('n_components', 1)
            if isinstance(n, bool) or not isinstance(n, int):
                n = int(num(n))
            return HMM(self, n)
        return {'hmmlearn.hmm.GaussianHMM': make}


def fhmm(ctx, deep):
    C, loc = 'FHMMExact', DIS + 'fhmm_exact.py'
    w = Hidden()
    I = ctx.interp(models=dict(TM, **w.models()))
    I.overrides['nilmtk.feature_detectors.cluster.cluster'] = \
        lambda I, a, k: Arr(list(range(found['more'] + len(LEARNT[toarr(
            I, a[0]).cells[0]][0]))))
    # what clustering finds is not what the user asks for
    found = {'more': 0}
    cls = ctx.anchor(I, 'nilmtk.disaggregate.fhmm_exact.FHMMExact')
    apps = {x: [[float(i), 50.], [NAN, 60.]] for i, x in enumerate(
        'abcdefg', 1)}
    apps['b'] = [[NAN], [2., 0., 7.]]
    sets = [s for n in (1, 2) for s in itertools.permutations('abcdef', n)]
    sets += list(itertools.permutations('abc', 3)) + [
        ('d', 'a', 'b'), ('f', 'd', 'a'), ('g', 'a'), ('a', 'g', 'b'),
        ('g',)]
    if deep:
        sets += list(itertools.permutations('abdf', 3))
        sets += list(itertools.permutations('abdf', 4))
    for s in sets:
        sizes = [len(LEARNT[i][0]) for i in ('abcdefg'.index(x) + 1
                                             for x in s)]
        for ns in (0, 2, 3, 1):
            if ns and set(sizes) != {ns}:
                continue
            N = 1
            for z in sizes:
                N *= z
            chunks = [frame(list(range(N))), frame([]),
                      frame([N - 1, 0, N // 2], start=900)]
            what = 'trained on %s%s' % (s, ', %d states' % ns if ns else '')
            found['more'] = 1 if ns else 0

            def go():
                w.__init__()
                m = I.call(cls, [params({'num_of_states': ns})], {})
                I.call(I.getattr(m, 'partial_fit'), [AList(
                    [frame([1, 2]), frame([3, 4])]), appliances(
                        [(x, apps[x]) for x in s])], {})
                return I.call(I.getattr(m, 'disaggregate_chunk'),
                              [AList(chunks)], {})
            for v in outcome(ctx, I, C, what, go, 'fhmm', loc):
                guard(ctx, C, lambda: hidden(ctx, C, loc, what, w, s, apps,
                                             chunks, v))
    ctx.absorb(I)


def hidden(ctx, C, loc, what, w, s, apps, chunks, got):
    fits = [[x for f in apps[a] for x in f if not isnan(x)] for a in s]
    ctx.expect([x for x, n in w.fits] == fits, 'training-readings', C,
               '%s: fitted to %s, expected %s' % (
                   what, [x for x, n in w.fits], fits), loc)
    ctx.expect([x for x, m in w.asked] == [
        c.data[0] for c in chunks if len(c.data[0])], 'mains', C,
        '%s: states asked for %s' % (what, [x for x, m in w.asked]), loc)
    tabs = rows(ctx, C, what, got, chunks, loc, times_=False)
    for c, cols in tabs:
        ctx.expect(set(cols) == set(s), 'columns', C, '%s: columns %s' % (
            what, sorted(cols)), loc)
    if len(tabs) != 3 or not w.asked:
        return
    model = w.asked[0][1]
    pi, A, mu = [[num(c) for c in model.attrs[n].cells] for n in (
        'startprob_', 'transmat_', 'means_')]
    N = len(pi)
    cols = tabs[0][1]
    par = [LEARNT['abcdefg'.index(a) + 1] for a in s]
    ctx.expect(len(mu) == N and len(A) == N * N == len(
        tabs[0][0].data[0]) ** 2, 'states', C, '%s: %d states' % (what, N),
        loc)
    which = {}
    for i in range(N):
        # the states of the appliances which the combined state stands for
        cand = []
        for t in itertools.product(*[range(len(p[0])) for p in par]):
            p = 1.
            for q, j in zip(par, t):
                p *= q[0][j]
            if close(p, pi[i]) and close(sum(
                    q[1][j] for q, j in zip(par, t)), mu[i]) and all(
                    cols[a][i] == float(round(q[1][j]))
                    for a, q, j in zip(s, par, t)):
                cand.append(t)
        if not ctx.expect(cand, 'states', C, '%s: combined state %d (start '
                          'probability %s, power %s) is predicted as %s' % (
                              what, i, pi[i], mu[i], {
                                  a: cols[a][i] for a in cols}), loc):
            return
        if len(cand) > 1:
            raise Unk('ambiguous state')
        which[i] = cand[0]
    ctx.expect(len(set(which.values())) == N, 'states', C, '%s: two states '
               'stand for %s' % (what, which), loc)
    for i in range(N):
        for j in range(N):
            p = 1.
            for q, x, y in zip(par, which[i], which[j]):
                p *= q[3][x][y]
            ctx.expect(close(A[i * N + j], p), 'transitions', C,
                       '%s: from %s to %s with probability %s, expected %s'
                       % (what, which[i], which[j], A[i * N + j], p), loc)
    for c, cs in tabs[2:]:
        for a in cs:
            ctx.expect(cs[a] == [cols[a][int(i)] for i in c.data[0]],
                       'decoding', C, '%s: %s is %s in states %s' % (
                           what, a, cs[a], c.data[0]), loc)


def sorting(ctx):
    """helpers which both packages have: sorting by power is one permutation
    of all the parameters"""
    for mod in ('nilmtk.disaggregate', 'nilmtk.legacy.disaggregate'):
        I = ctx.interp(models=dict(TM))
        C = mod + '.fhmm_exact'
        loc = mod.replace('.', '/') + '/fhmm_exact.py'
        try:
            f = I.get(C + '.sort_learnt_parameters')
        except KeyError:
            continue
        for k in LEARNT:
            pi, mu, cov, A = LEARNT[k]
            n = len(pi)
            for p in itertools.permutations(range(n)):
                q = ([pi[i] for i in p], [mu[i] for i in p],
                     [cov[i] for i in p], [[A[i][j] for j in p] for i in p])

                def go():
                    return I.call(f, [
                        Arr(list(q[0])), Arr(list(q[1]), (n, 1)),
                        Arr(list(q[2]), (n, 1, 1)),
                        Arr([c for r in q[3] for c in r], (n, n))], {})
                for v in outcome(ctx, I, C, str(q), go, 'sorting', loc):
                    def look():
                        P, M, V, T_ = [[num(c) for c in toarr(I, x).cells]
                                       for x in I.iterate(v)]
                        ok = M == sorted(mu) and any(
                            P == [pi[i] for i in r] and
                            M == [mu[i] for i in r] and
                            V == [cov[i] for i in r] and
                            T_ == [A[i][j] for i in r for j in r]
                            for r in itertools.permutations(range(n)))
                        ctx.expect(ok, 'sorting', C, '%s sorted: start %s, '
                                   'means %s, transitions %s' % (
                                       q, P, M, T_), loc)
                    guard(ctx, C, look)
        ctx.absorb(I)


# ------------------------------------------------------- steady states (Hart)
def edges(rows_, threshold, noise):
    """[(row, change, steady power)] of Hart's algorithm"""
    segs, before, moving = [[0, []]], [0.] * len(rows_[0] if rows_ else ()), \
        False
    for i, r in enumerate(rows_):
        moved = any(abs(x - y) > threshold for x, y in zip(r, before))
        if moved and not moving:
            segs.append([i, []])
        if moved:
            segs[-1][1] = []
        segs[-1][1].append(r)
        before, moving = r, moved
    out, last = [], [0.] * len(before)
    for i, part in segs:
        if not part:
            continue
        m = [sum(c) / len(part) for c in zip(*part)]
        d = [x - y for x, y in zip(m, last)]
        if any(abs(x) > noise for x in d):
            out.append((i, d, m))
        last = m
    if out and out[0][0] == 0 and any(x > noise for x in out[0][2]):
        out = out[1:]       # what was on from the start did not turn on
    return out


def steady(ctx, deep):
    C, loc = 'find_steady_states', 'nilmtk/feature_detectors/' \
        'steady_states.py'
    I = ctx.interp(models=dict(TM))
    f = ctx.anchor(I, 'nilmtk.feature_detectors.steady_states.'
                   'find_steady_states')
    runs = [()]
    for n in range(1, 6 if deep else 5):
        runs += itertools.product((0, 60, 200), repeat=n)
    for n in (3, 4):
        runs += itertools.product((100, 116, 300), repeat=n)
    runs += [(0, 0, 200, 300, 310, 300, 0, 0), (50, 65, 80, 95, 110, 300),
             (500, 500, 430, 430, 431, 50), (0, 15, 31, 200, 129, 128, 58),
             (0, 71, 71, 0, 70, 70, 0), (0, 400, 0, 400, 400, 350, 0),
             (200, 210, 220, 230, 10, 0), (0, 300, 500, 500, 300, 0, 0)]
    for levels in ((0, 300, 0, 300, 700, 0), (0, 300, 500, 0, 700, 300),
                   (300, 0, 300, 500, 700, 0), (0, 80, 160, 240, 0, 300),
                   (500, 300, 0, 300, 0, 60), (0, 30, 60, 90, 300, 0))[
                       :6 if deep else 4]:
        for ns in itertools.product((1, 2), repeat=6):
            runs.append(sum(([x] * n for x, n in zip(levels, ns)), []))
    if deep:
        runs += itertools.product((0, 100, 300), repeat=7)
    for r in runs:
        for kw in ({}, {'state_threshold': 50, 'noise_level': 100},
                   {'state_threshold': 15, 'noise_level': 10}):
            if kw and len(r) < 3:
                continue
            edge(ctx, I, f, C, loc, [(float(x),) for x in r], kw)
    two = [(0, 0), (0, 200), (100, 0), (100, 100)]
    for n in (2, 3, 4):
        for r in itertools.product(two, repeat=n):
            edge(ctx, I, f, C, loc, [tuple(map(float, x)) for x in r], {})
    ctx.absorb(I)


def edge(ctx, I, f, C, loc, r, kw):
    cols = (COL, ('power', 'reactive'))[:len(r[0]) if r else 1]
    what = '%s%s' % (r, kw or '')

    def go():
        return I.call(f, [frame(r, cols)], aval(kw) and dict(kw))
    want = edges(r, kw.get('state_threshold', 15), kw.get('noise_level', 70))
    for v in outcome(ctx, I, C, what, go, 'edges', loc):
        def look():
            got = []
            for x in I.iterate(v):
                if not isinstance(x, Frame):
                    raise Unk(short(x))
                got.append([(offset(l), [num(d[i]) for d in x.data])
                            for i, l in enumerate(x.idx.labels)])
            exp = [[(10. * i, m) for i, d, m in want],
                   [(10. * i, d) for i, d, m in want]]
            for w, g, e in zip(('steady states', 'transitions'), got, exp):
                ok = len(g) == len(e) and all(
                    x == y and len(p) == len(q) and all(map(close, p, q))
                    for (x, p), (y, q) in zip(g, e))
                ctx.expect(ok, 'edges', C, '%s of %s: %s, expected %s' % (
                    w, what, g, e), loc)
        guard(ctx, C, look)


# -------------------------------------------------------------- pairs (Hart)
def paired(tr, size, tol, percent, large):
    """the pairs of transitions, closest first, earliest first"""
    buf, out = [], []
    for t in tr:
        if len(buf) == size:
            buf = [b for b in buf if not b[1]]
        buf = (buf + [[t, False]])[-size:]
        for d in range(1, len(buf)):
            for i in range(len(buf) - d):
                a, b = buf[i], buf[i + d]
                if a[1] or b[1] or not a[0][1] > 0:
                    continue
                if all(abs(x + y) < (
                        percent * max(abs(x), abs(y))
                        if max(abs(x), abs(y)) >= large else tol)
                        for x, y in zip(a[0][1:], b[0][1:])):
                    a[1] = b[1] = True
                    out.append(tuple(a[0]) + tuple(b[0]))
    return out


def pairs(ctx, deep, mods=('nilmtk.disaggregate',
                           'nilmtk.legacy.disaggregate')):
    runs = []
    for n in range(0, 5):
        runs += itertools.product((200., -200., -290., 500.), repeat=n)
    if deep:
        runs += itertools.product((200., -200., -290., 500., -480.),
                                  repeat=5)
    runs += [(2000., -2050.), (2000., -2080.), (1000., -1034.),
             (999., -1034.), (998., -899.), (900., -801.), (900., -800.),
             (2000., 300., -300., -1950., 200., -210., -2000.),
             (100., -199.), (100., -200.), (-200., 200.),
             (500., 520., -510., -505.), (300., 400., 300., -300., -400.),
             (950., -1049.), (950., -1040., -985.), (1049., -950.),
             (1020., -985.), (1020., -984.), (80., -75.), (71., -160.),
             (200., 500., 800., 1300., -205.),
             (200., 500., 800., 1300., 1800., -205., -1805.),
             (200., 500., 800., -190., 1300., 1800., -805., -505., -1300.)]
    for mod in mods:
        I = ctx.interp(models=dict(TM))
        C = mod + '.hart_85'
        loc = mod.replace('.', '/') + '/hart_85.py'
        try:
            cls = I.get(C + '.Hart85')
        except KeyError:
            continue
        for r in runs:
            pair(ctx, I, cls, C, loc, [(x,) for x in r], (COL,), 20)
        for size in (1, 2, 3, 4):
            for r in itertools.product((200., -200., 500.),
                                       repeat=5 if size > 2 else 4):
                pair(ctx, I, cls, C, loc, [(x,) for x in r], (COL,), size)
        for kind in ('apparent', 'reactive'):
            for r in runs[1:40]:
                pair(ctx, I, cls, C, loc, [(x,) for x in r],
                     (('power', kind),), 20)
        two = [(200., 50.), (-200., -50.), (-200., 60.), (2000., 1500.),
               (-2050., -1520.), (-2050., -1600.), (-2050., -1560.)]
        for n in (1, 2, 3):
            for r in itertools.product(two, repeat=n):
                pair(ctx, I, cls, C, loc, list(r),
                     (COL, ('power', 'reactive')), 20)
        try:
            buf = I.get(C + '.PairBuffer')
        except KeyError:
            buf = None
        if buf is not None:
            for r in runs[:60]:
                for kind in (list, tuple):
                    direct(ctx, I, buf, C, loc, [(x,) for x in r], (COL,),
                           kind)
            for r in itertools.product(two, repeat=2):
                for kind in (list, tuple):
                    direct(ctx, I, buf, C, loc, list(r),
                           (COL, ('power', 'reactive')), kind)
        ctx.absorb(I)


def direct(ctx, I, cls, C, loc, r, cols, kind, par=(100, .035, 1000)):
    """transitions given to a PairBuffer one by one"""
    what = '%s added as %s' % (r, kind.__name__)
    r = [(10. * i,) + x for i, x in enumerate(r)]

    def go():
        b = I.call(cls, [], {
            'columns': aval(list(cols)), 'buffer_size': 20,
            'min_tolerance': par[0], 'percent_tolerance': par[1],
            'large_transition': par[2], 'num_measurements': len(cols) + 1})
        for x in r:
            x = (T(x[0]),) + x[1:]
            I.call(I.getattr(b, 'add_transition'),
                   [AList(list(x)) if kind is list else x], {})
            I.call(I.getattr(b, 'pair_transitions'), [], {})
        return I.getattr(b, 'matched_pairs')
    want = paired(r, 20, *par)
    for v in outcome(ctx, I, C, what, go, 'pairs', loc):
        def look():
            if not isinstance(v, Frame):
                raise Unk(short(v))
            got = [tuple(offset(x) if isinstance(x, Lin) and x.co else
                         num(x) for x in (d[i] for d in v.data))
                   for i in range(len(v.idx.labels))]
            ctx.expect(got == want, 'pairs', C, '%s: %s, expected %s' % (
                what, got, want), loc)
        guard(ctx, C, look)


def pair(ctx, I, cls, C, loc, r, cols, size, par=(100, .035, 1000)):
    names = [c[1] for c in cols]
    what = '%s of %s, buffer of %d' % (names, r, size)

    def go():
        o = AObj(cls, {})
        f = frame(r, tuple(n + ' transition' for n in names))
        f.cols = Idx([n + ' transition' for n in names])
        I.setattr(o, 'transients', f)
        I.setattr(o, 'columns', aval(list(cols)))
        return I.call(I.getattr(o, 'pair'), [size] + list(par), {})
    want = paired([(10. * i,) + x for i, x in enumerate(r)], size, *par)
    for v in outcome(ctx, I, C, what, go, 'pairs', loc):
        def look():
            if not isinstance(v, Frame):
                raise Unk(short(v))
            caps = [n.capitalize() for n in names]
            exp = ['T%d %s' % (i, n) for i in (1, 2)
                   for n in ['Time'] + caps]
            ctx.expect([pyval(c) for c in v.cols.labels] == exp,
                       'pair-columns', C, '%s: columns %s, expected %s' % (
                           what, v.cols.labels, exp), loc)
            got = [tuple(offset(x) if isinstance(x, Lin) and x.co else
                         num(x) for x in (d[i] for d in v.data))
                   for i in range(len(v.idx.labels))]
            ctx.expect(got == want, 'pairs', C, '%s: %s, expected %s' % (
                what, got, want), loc)
        guard(ctx, C, look)


# ------------------------------------------------------------- mean shift
class MeanShift(Dom):
    """the centres are the distinct samples; notes what it is given"""
    __slots__ = ('w', 'attrs')

    def __init__(self, w):
        self.w, self.attrs = w, {}

    def d_truth(self, I):
        return True

    def d_getattr(self, I, n):
        if n in self.attrs:
            return self.attrs[n]
        if n in ('fit', 'fit_predict'):
            def fit(I, a, k):
                x = toarr(I, a[0])
                if x is None or len(x.shape) != 2 or not x.shape[0]:
                    I.throw('ValueError', 'Expected 2D array')
                m = x.shape[1]
                c = [num(y) for y in x.cells]
                rs = [tuple(c[i:i + m]) for i in range(0, len(c), m)]
                self.w.append(rs)
                cs = sorted(set(rs), key=lambda r: (-rs.count(r), r))
                self.attrs['cluster_centers_'] = Arr(
                    [y for r in cs for y in r], (len(cs), m))
                self.attrs['labels_'] = Arr([cs.index(r) for r in rs])
                return self if n == 'fit' else self.attrs['labels_']
            return Native(fit, n)
        return NotImplemented


def shift_models(w):
    return {'sklearn.cluster.MeanShift': lambda I, a, k: MeanShift(w)}


def shift(ctx):
    """the power of a pair is the mean of its two changes"""
    C, loc = 'hart85_means_shift_cluster', 'nilmtk/feature_detectors/' \
        'cluster.py'
    w = []
    I = ctx.interp(models=dict(TM, **shift_models(w)))
    f = ctx.anchor(I, 'nilmtk.feature_detectors.cluster.'
                   'hart85_means_shift_cluster')
    for names in (['active'], ['apparent'], ['reactive'],
                  ['active', 'reactive']):
        for n in (1, 2, 3):
            data = [[200., 500., 62.][:n], [-20., 40., -3.][:n]][:len(names)]
            off = [[-210., -470., -60.][:n], [31., -48., 5.][:n]]
            labels = [T(10 * i) for i in range(n)]
            cs, ds = [], []
            for t, src in ((1, data), (2, off)):
                cs.append('T%d Time' % t)
                ds.append(list(labels))
                for x, d in zip(names, src):
                    cs.append('T%d %s' % (t, x.capitalize()))
                    ds.append(list(d))
            cols = [('power', x) for x in names]

            def go():
                w[:] = []
                return I.call(f, [Frame(Idx(list(range(n))), Idx(cs), ds),
                                  aval(cols)], {})
            what = '%d pairs of %s' % (n, names)
            want = [tuple((abs(x[i]) + abs(y[i])) / 2 for x, y in zip(
                data, off)) for i in range(n)]
            for v in outcome(ctx, I, C, what, go, 'centroids', loc):
                def look():
                    ctx.expect(len(w) == 1 and len(w[0]) == len(want) and all(
                        len(x) == len(y) and all(map(close, x, y))
                        for x, y in zip(w[0], want)), 'centroids', C,
                        '%s: %s clustered, expected %s' % (what, w, want),
                        loc)
                    if not isinstance(v, Frame):
                        raise Unk(short(v))
                    ctx.expect([pyval(c) for c in v.cols.labels] == cols,
                               'centroids', C, '%s: columns %s' % (
                                   what, v.cols.labels), loc)
                    got = sorted(tuple(num(d[i]) for d in v.data)
                                 for i in range(len(v.idx.labels)))
                    ctx.expect(len(got) == len(set(want)) and all(
                        all(map(close, x, y)) for x, y in zip(
                            got, sorted(set(want)))), 'centroids', C,
                        '%s: centres %s' % (what, got), loc)
                guard(ctx, C, look)
    ctx.absorb(I)


# --------------------------------------------------------------------- Hart85
def mse(I, a, k):
    if k or len(a) != 2:
        return NotImplemented
    x, y = toarr(I, a[0]), toarr(I, a[1])
    if x is None or y is None:
        return NotImplemented
    p, q = [num(c) for c in x.cells], [num(c) for c in y.cells]
    if len(p) != len(q) or not p or any(map(isnan, p + q)):
        I.throw('ValueError', 'inconsistent or missing samples')
    return sum((c - d) ** 2 for c, d in zip(p, q)) / len(p)


def switched(n, base, apps, runs):
    """(mains, {appliance: readings}) with appliances on in the given runs"""
    out = {a: [0.] * n for a in apps}
    for a, s, e in runs:
        for i in range(s, e):
            out[a][i] = apps[a]
    return [base + sum(out[a][i] for a in apps) for i in range(n)], out


def hart(ctx, deep):
    C, loc = 'Hart85', DIS + 'hart_85.py'
    w = []
    fs = FS()
    models = dict(TM, **fs.models())
    models.update(shift_models(w))
    models['sklearn.metrics.mean_squared_error'] = mse
    models.update(pickle_models())
    I = ctx.interp(models=models)
    cls = ctx.anchor(I, 'nilmtk.disaggregate.hart_85.Hart85')
    trains = [
        ({'a': 500.}, 24, 50., [('a', 3, 8), ('a', 12, 17), ('a', 19, 22)]),
        ({'a': 500., 'b': 200.5}, 40, 50., [
            ('a', 3, 8), ('a', 12, 18), ('b', 15, 25), ('b', 28, 33),
            ('a', 35, 38)]),
        ({'b': 200.5, 'a': 500., 'c': 1500.75}, 50, 0., [
            ('a', 3, 8), ('c', 5, 12), ('b', 15, 25), ('b', 28, 33),
            ('a', 20, 38), ('c', 40, 44)])]
    base = 50.
    for apps, n, b, runs in trains:
        tests = tested(apps, deep)
        mains, app = switched(n, b, apps, runs)
        for way in ('memory', 'file'):
            if way == 'file' and len(apps) != 2:
                continue
            what = 'trained on %s%s' % (
                apps, ', exported and imported' if way == 'file' else '')
            chunks = [frame(m, start=1000 * i) for i, m in enumerate(tests)]

            def go():
                fs.__init__()
                I.fs = fs
                w[:] = []
                m = I.call(cls, [params()], {})
                I.call(I.getattr(m, 'partial_fit'), [
                    AList([frame(mains)]), appliances(
                        [(a, [app[a]]) for a in apps])], {})
                if way == 'file':
                    I.call(I.getattr(m, 'export_model'), ['model'], {})
                    m = I.call(cls, [params()], {})
                    I.call(I.getattr(m, 'import_model'), ['model'], {})
                return I.call(I.getattr(m, 'disaggregate_chunk'),
                              [AList(chunks)], {})
            for v in outcome(ctx, I, C, what, go, 'hart', loc):
                def look():
                    cs = [x[0] for x in w[0]]
                    ctx.expect(set(cs) == set(apps.values()), 'centroids',
                               C, '%s: %s learnt' % (what, cs), loc)
                    for c, cols in rows(ctx, C, what, v, chunks, loc):
                        if not ctx.expect(
                                set(cols) == set(apps), 'columns', C,
                                '%s: columns %s' % (what, sorted(cols)),
                                loc):
                            continue
                        stretches(ctx, C, loc, what, apps, c.data[0], cols)
                guard(ctx, C, look)
    ctx.absorb(I)


def hart_levels(ctx):
    """the levels Hart85 was trained with are those it predicts with, also
    after exporting and importing the model"""
    C, loc = 'Hart85', DIS + 'hart_85.py'
    w, fs = [], FS()
    models = dict(TM, **fs.models())
    models.update(shift_models(w))
    models['sklearn.metrics.mean_squared_error'] = mse
    models.update(pickle_models())
    I = ctx.interp(models=models)
    cls = ctx.anchor(I, 'nilmtk.disaggregate.hart_85.Hart85')
    apps = {'b': 200., 'a': 500.}
    mains, app = switched(40, 50., apps, [
        ('a', 3, 8), ('a', 12, 18), ('b', 15, 25), ('b', 28, 33),
        ('a', 35, 38)])
    tests = [[50.] * 3 + [80.] * 3 + [170.] * 3 + [250.] * 3 + [550.] * 3 +
             [50.] * 3, [50., 50., 110., 140., 300., 300., 50., 50.]]
    for noise, thresh in ((None, None), (100, 40), (25, 10), (120, 15),
                          (70, 100)):
        kw = {} if noise is None else {'noise_level': noise,
                                       'state_threshold': thresh}
        chunks = [frame(m, start=1000 * i) for i, m in enumerate(tests)]

        def go():
            fs.__init__()
            I.fs = fs
            w[:] = []
            m = I.call(cls, [params()], {})
            I.call(I.getattr(m, 'partial_fit'), [
                AList([frame(mains)]), appliances(
                    [(a, [app[a]]) for a in apps])], dict(kw))
            out = [I.call(I.getattr(m, 'disaggregate_chunk'),
                          [AList(list(chunks))], {})]
            I.call(I.getattr(m, 'export_model'), ['model'], {})
            n = I.call(cls, [params()], {})
            I.call(I.getattr(n, 'import_model'), ['model'], {})
            return out + [I.call(I.getattr(n, 'disaggregate_chunk'),
                                 [AList(list(chunks))], {})]
        for v in outcome(ctx, I, C, 'trained with %s' % kw, go, 'hart', loc):
            def look():
                for got, how in zip(v, ('', ', exported and imported')):
                    what = 'trained with %s%s' % (kw, how)
                    for c, cols in rows(ctx, C, what, got, chunks, loc):
                        if ctx.expect(set(cols) == set(apps), 'columns', C,
                                      '%s: columns %s' % (
                                          what, sorted(cols)), loc):
                            stretches(ctx, C, loc, what, apps, c.data[0],
                                      cols, (thresh or 15, noise or 70))
            guard(ctx, C, look)
    ctx.absorb(I)


def tested(apps, deep):
    """mains to disaggregate"""
    P_ = sorted(apps.values())
    out = [[], [40.], [40.] * 4, [60., 900.]]
    for lead in (0., 50., 300.):
        for up in P_ + [P_[0] * 1.2]:
            for n in (1, 2, 3):
                for m in (1, 3):
                    on = [lead] * 2 + [lead + up] * n
                    out.append(on + [lead] * m)
                    out.append(on)
                    out.append([lead + up] * n + [lead] * m)
                    if n == 2 or deep:
                        out.append(on + [lead] * m + [lead + P_[-1]] * 2 +
                                   [lead] * 2)
                        out.append([lead] * 2 + [lead + P_[0]] * n + [
                            lead + P_[0] + P_[-1]] * 2 + [
                                lead + P_[-1]] * m + [lead] * 2)
    return out


def stretches(ctx, C, loc, what, apps, mains, cols, levels=(15, 70)):
    ev = {a: {} for a in apps}
    for i, d, m in edges([(x,) for x in mains], *levels):
        near = min(abs(abs(d[0]) - p) for p in apps.values())
        hit = [a for a in apps if abs(abs(d[0]) - apps[a]) == near]
        if len(hit) != 1:
            return
        ev[hit[0]][i] = d[0] > 0
    for a in apps:
        on = False
        for i in range(len(mains)):
            if i - 1 in ev[a]:
                on = ev[a][i - 1]
            x = cols[a][i]
            if i in ev[a] or i == len(mains) - 1:
                ok = x in (0., float(int(apps[a])), apps[a])
            elif on:
                ok = x in (float(int(apps[a])), apps[a])
            else:
                ok = x == 0
            ctx.expect(ok, 'stretches', C, '%s: %s is %s in row %d of mains '
                       '%s (on in %s)' % (what, a, x, i, mains, ev[a]), loc)


def pickle_models():
    def dumps(I, a, k):
        return Text(I.deepcopy(a[0], {}))

    def dump(I, a, k):
        return I.call(I.getattr(a[1], 'write'), [dumps(I, a, k)], {})

    def load(I, a, k):
        t = I.call(I.getattr(a[0], 'read'), [], {})
        return I.deepcopy(t.v, {}) if isinstance(t, Text) \
            else NotImplemented
    return {'pickle.dumps': dumps, 'pickle.dump': dump, 'pickle.load': load}
