"""C17  Shares of energy, correlations and the other figures of one meter."""
import itertools
import math
from fractions import Fraction
from .tablecommon import *
from .c10 import T, offset
from .c11 import tfr
from .c12 import name
from .c13 import judge, setup
from .c14 import stand, unstand, bounds, EM
from .c15 import (Bench, power, empty, series, pairs, P, EL, expect_series,
                  readings)

EXPLANATION = (
    'The figures which Electric derives from the readings, the energy and '
    'the good sections of a meter are interpreted over the abstract domain '
    'with energies as named atoms, and compared with the definition in the '
    'documentation.')
ASSUMPTIONS = [
    'total_energy, good_sections and load of one meter are as C05, C10 and '
    'C12 decide; here they are stand-ins',
    'Pearson\'s correlation is compared on representative readings']
MIN_OBLIGATIONS = 150
LOC = 'nilmtk/electric.py'


def run(ctx):
    b = Bench(ctx)
    uptime(ctx, b)
    share(ctx, b)
    upstream(ctx, b)
    per_period(ctx, b)
    correlation(ctx, b)
    vampire(ctx, b)
    histogram(ctx, b)
    information(ctx, b)
    resolution(ctx, b)
    ctx.absorb(b.I)


def e(i, t):
    return atom('num', 'e%s%s' % (i, t[:2]))


def esum(i, types):
    return Series([e(i, t) for t in types], Idx(list(types)))


def value(v, want, I):
    if isinstance(v, Series):
        raise Unk(short(v))
    return eqv(I, v, want)


def show(v):
    return short(v) if isinstance(v, Dom) else v


def uptime(ctx, b):
    I = b.I
    C = 'Electric.uptime'
    for secs in ([], [(0, 10)], [(0, 10), (20, 50)], [(5, 9), (9, 10),
                                                      (100, 1000)]):
        seen = []

        def go():
            m = b.meter(1)
            G = I.get('nilmtk.timeframegroup.TimeFrameGroup')

            def gs(i, a, k):
                seen.append(dict(k))
                return I.call(G, [AList([tfr(I, *s) for s in secs])], {})
            stand(I, 'good_sections', gs)
            try:
                return I.call(I.getattr(m, 'uptime'), [], {'q': 7})
            finally:
                unstand(I, 'good_sections')
        w = sum(y - x for x, y in secs)
        for o, v, tr in each(ctx, I, C, go):
            what = 'good sections %s' % secs
            if o != 'return':
                ctx.violation('uptime', C, '%s: %s' % (what, name(v)), LOC)
                continue
            l = lift(v)
            ctx.expect(l is not None and not l.co and l.const == w and
                       seen[-1:] == [{'q': 7}], 'uptime', C,
                       '%s: %s asked with %s, expected %s s' % (
                           what, short(v), seen[-1:], w), LOC)


def asked(b, types, secs='GOOD'):
    """stand-ins for the energy and good sections of meters 1, 2"""
    I = b.I
    log = []

    def te(i, a, k):
        log.append((i, 'energy', dict(k)))
        t = types[i]
        return t if isinstance(t, Series) else esum(i, t)

    def gs(i, a, k):
        log.append((i, 'good', dict(k)))
        return 'GOOD%d' % i
    stand(I, 'total_energy', te)
    stand(I, 'good_sections', gs)
    return log


def positive(I, *atoms):
    for x in atoms:
        I.facts[('sign', tuple(sorted(x.co.items())), x.const)] = 1


TY = ('active', 'apparent', 'reactive')


def share(ctx, b):
    I = b.I
    C = 'Electric.proportion_of_energy'
    sub = [c for n in (1, 2, 3) for c in itertools.combinations(TY, n)]
    for t1 in [()] + sub:
        for t2 in sub:
            for kw in ({}, {'sections': 'MINE'}, {'chunksize': 3}):
                if kw and (t1, t2) != (('active',), ('active',)):
                    continue

                def go():
                    log = asked(b, {1: t1, 2: t2})
                    m1, m2 = b.meter(1), b.meter(2)
                    positive(I, *[e(2, t) for t in t2])
                    s = I.call(I.getattr(esum(2, t2), 'sum'), [], {})
                    if isinstance(s, Lin) and len(s.co) > 1:
                        from domains import canon
                        positive(I, canon(s)[0])
                    try:
                        return (I.call(I.getattr(
                            m1, 'proportion_of_energy'), [m2], dict(kw)),
                            list(log))
                    finally:
                        unstand(I, 'total_energy', 'good_sections')
                both = [t for t in t1 if t in t2]
                if not t1:
                    want = 0
                elif both:
                    want = None
                    for t in both:
                        r = I.binop('/', e(1, t), e(2, t))
                        want = r if want is None else I.binop('+', want, r)
                    want = want.scale(Fraction(1, len(both)))
                else:
                    want = I.binop('/', e(1, best(t1)), e(2, best(t2)))
                for o, v, tr in each(ctx, I, C, go):
                    what = 'energy of %s in %s, of the other in %s' % (
                        'self', t1, t2)
                    if o != 'return':
                        ctx.violation('share', C, '%s: %s' % (
                            what, name(v)), LOC)
                        continue
                    r, log = v

                    def look():
                        ctx.expect(value(r, want, I), 'share', C,
                                   '%s: %s, expected %s' % (
                                       what, show(r), want), LOC)
                    guard(ctx, C, look)
                    if kw and t1:
                        sec = kw.get('sections', 'GOOD2')
                        rest = {x: y for x, y in kw.items()
                                if x != 'sections'}
                        asks = [x for x in log if x[1] == 'energy']
                        ctx.expect(sorted(x[0] for x in asks) == [1, 2] and
                                   all(x[2] == dict(rest, sections=sec)
                                       for x in asks), 'share-sections', C,
                                   'with %s the energies were asked for '
                                   'with %s' % (kw, asks), LOC)
    # the other has no energy
    for t1 in ((), ('active',), ('active', 'reactive')):
        for cells in ([], [0], [0.0, 0]):
            def go():
                asked(b, {1: t1, 2: Series(list(cells), Idx(list(
                    TY[:len(cells)])))})
                m1, m2 = b.meter(1), b.meter(2)
                try:
                    return isnan(I.call(I.getattr(
                        m1, 'proportion_of_energy'), [m2], {}))
                finally:
                    unstand(I, 'total_energy', 'good_sections')
            judge(ctx, I, C, go, True, 'share-of-nothing',
                  'the other used %s: not NaN?' % cells)


def best(ts):
    for t in ('active', 'apparent', 'reactive'):
        if t in ts:
            return t


def upstream(ctx, b):
    I = b.I
    C = 'Electric.proportion_of_upstream'
    sub = [c for n in (1, 2, 3) for c in itertools.combinations(TY, n)]
    for t1 in sub:
        for t2 in sub:
            both = [t for t in t1 if t in t2]
            if not both:
                continue

            def go():
                log = asked(b, {1: t1, 2: t2})
                m1, m2 = b.meter(1), b.meter(2)
                positive(I, *[e(2, t) for t in t2])
                stand(I, 'upstream_meter', lambda i, a, k: m2)
                try:
                    return (I.call(I.getattr(
                        m1, 'proportion_of_upstream'), [], {'q': 1}),
                        list(log))
                finally:
                    unstand(I, 'total_energy', 'good_sections',
                            'upstream_meter')
            bt = best(both)
            want = I.binop('/', e(1, bt), e(2, bt))
            for o, v, tr in each(ctx, I, C, go):
                what = 'energy of the meter in %s, upstream in %s' % (t1, t2)
                if o != 'return':
                    ctx.violation('upstream-share', C, '%s: %s' % (
                        what, name(v)), LOC)
                    continue
                r, log = v
                guard(ctx, C, lambda: ctx.expect(
                    value(r, want, I), 'upstream-share', C,
                    '%s: %s, expected %s' % (what, show(r), want), LOC))
                asks = [x for x in log if x[1] == 'energy']
                ctx.expect(sorted(x[0] for x in asks) == [1, 2] and all(
                    x[2].get('sections') == 'GOOD2' for x in asks) and
                    (2, 'good', {'q': 1}) in log, 'upstream-sections', C,
                    '%s: asked %s' % (what, log), LOC)


def per_period(ctx, b):
    I = b.I
    C = 'Electric.average_energy_per_period'
    for alias, secs in (('D', 86400), ('H', 3600), ('10T', 600), (None,
                                                                  86400)):
        for up in (None, True, False):
            for span in (0, 1800, 172800):
                def go():
                    log = asked(b, {1: ('active', 'reactive')})
                    m = b.meter(1)
                    td = Lin('td', {}, span)
                    stand(I, 'uptime', lambda i, a, k: (log.append(
                        (1, 'uptime', dict(k))), td)[1])
                    I.overrides[EM + 'get_timeframe'] = lambda I, a, k: tfr(
                        I, 0, 2 * span + 10)
                    kw = {'chunksize': 4}
                    if alias:
                        kw['offset_alias'] = alias
                    if up is not None:
                        kw['use_uptime'] = up
                    try:
                        return (I.call(I.getattr(
                            m, 'average_energy_per_period'), [], kw), log)
                    finally:
                        unstand(I, 'total_energy', 'good_sections',
                                'uptime', 'get_timeframe')
                have = 2 * span + 10 if up is False else span
                for o, v, tr in each(ctx, I, C, go):
                    what = '%s of %s s, use_uptime %s' % (alias, have, up)
                    if o != 'return':
                        ctx.violation('per-period', C, '%s: %s' % (
                            what, name(v)), LOC)
                        continue
                    r, log = v

                    def look():
                        if not have:
                            ctx.expect(isnan(r), 'per-period', C,
                                       '%s: %s instead of NaN' % (
                                           what, show(r)), LOC)
                            return
                        if not isinstance(r, Series):
                            raise Unk(short(r))
                        w = [(t, e(1, t).scale(Fraction(secs, have)))
                             for t in ('active', 'reactive')]
                        got = [(pyval(l), c) for l, c in zip(
                            r.idx.labels, r.vals)]
                        ctx.expect([x for x, _ in got] == [
                            x for x, _ in w] and all(
                            eqv(I, x, y) for (_, x), (_, y) in zip(got, w)),
                            'per-period', C, '%s: %s, expected %s' % (
                                what, got, w), LOC)
                        ks = [x[2] for x in log]
                        ctx.expect(all(k == {'chunksize': 4} for k in ks),
                                   'per-period-request', C,
                                   '%s: asked with %s' % (what, ks), LOC)
                    guard(ctx, C, look)

    def go():
        return I.call(I.getattr(b.meter(1), 'average_energy_per_period'),
                      [], {'sections': 'S'})
    judge(ctx, I, C, go, 'raises RuntimeError', 'per-period',
          'sections given')


def pearson(xs, ys):
    p = [(x, y) for x, y in zip(xs, ys) if not isnan(x)]
    n = len(p)
    if n <= 1:
        return None
    mx = sum(x for x, _ in p) / n
    my = sum(y for _, y in p) / n
    sx = sum((x - mx) ** 2 for x, _ in p)
    sy = sum((y - my) ** 2 for _, y in p)
    return sum((x - mx) * (y - my) for x, y in p) / math.sqrt(sx * sy)


def correlation(ctx, b):
    I = b.I
    C = 'Electric.correlation'
    sets = [([1, 2, 4, 9], [3, 1, 7, 5]), ([5, 1], [2, 9]), ([1, 2], [2, 9]),
            ([0, 0, 100, 0, 7], [1, 2, 90, 4, 0]),
            ([1, 2, 3, 4, 5, 6], [10, 8, 6, 4, 2, 0]),
            ([1, NAN, 4, 9], [3, NAN, 7, 5]),
            ([NAN, 2, 7, NAN, 5, NAN], [NAN, 1, 9, NAN, 2, NAN]),
            ([3], [4]), ([], []), ([NAN, 3], [NAN, 4]), ([NAN], [NAN])]
    for xs, ys in sets:
        n = len(xs)
        cuts = [[n]] + ([[1, n - 1], [n - 1, 1]] if n > 1 else []) + (
            [[2, 0, n - 2]] if n > 2 else [])
        for cut in cuts:
            for kw in ({}, {'sample_period': 60, 'sections': 'S'}):
                def go():
                    cs = []
                    for v in (xs, ys):
                        c, at = [], 0
                        for k in cut:
                            c.append(power([10 * i for i in range(
                                at, at + k)], v[at:at + k]) if k else
                                empty([(P, 'active')]))
                            at += k
                        cs.append(c)
                    b.log.clear()
                    m1, m2 = b.meter(1, cs[0]), b.meter(2, cs[1])
                    for i, p in ((1, 10), (2, 30)):
                        pass
                    stand(I, 'sample_period', lambda i, a, k: {
                        1: 10, 2: 30}[i])
                    try:
                        return (I.call(I.getattr(m1, 'correlation'), [m2],
                                       dict(kw)), list(b.log))
                    finally:
                        unstand(I, 'sample_period')
                want = pearson(xs, ys)
                for o, v, tr in each(ctx, I, C, go):
                    what = 'readings %s and %s in chunks of %s' % (
                        xs, ys, cut)
                    if o != 'return':
                        ctx.violation('correlation', C, '%s: %s' % (
                            what, name(v)), LOC)
                        continue
                    r, log = v

                    def look():
                        if want is None:
                            ctx.expect(isnan(r), 'correlation', C,
                                       '%s: %s instead of NaN' % (
                                           what, show(r)), LOC)
                            return
                        l = lift(r)
                        if l is None or l.co:
                            raise Unk(short(r))
                        ctx.expect(abs(float(l.const) - want) < 1e-6,
                                   'correlation', C,
                                   '%s: %s, expected %s' % (
                                       what, float(l.const), want), LOC)
                    guard(ctx, C, look)
                    w = dict({'sample_period': 30}, **kw)
                    ctx.expect(all(all(k.get(x) == y for x, y in w.items())
                                   for _, k in log), 'correlation-request',
                               C, '%s: loaded with %s, expected %s' % (
                                   what, log, w), LOC)


def vampire(ctx, b):
    I = b.I
    C = 'Electric.vampire_power'
    for parts in ([[5, 3, 9]], [[5, 3], [2, 7]], [[4, NAN]], [[NAN, 8], [],
                                                             [6, 6]],
                  [[0, 1]]):
        def go():
            cs, at = [], 0
            for p in parts:
                cs.append(power([10 * (at + i) for i in range(len(p))], p)
                          if p else empty([(P, 'active')]))
                at += len(p)
            b.log.clear()
            m = b.meter(1, cs)
            return (I.call(I.getattr(m, 'vampire_power'), [],
                           {'sections': 'S'}), b.log[0][1].get('sections'))
        w = min(x for p in parts for x in p if not isnan(x))
        judge(ctx, I, C, go, (w, 'S'), 'vampire', 'readings %s' % parts)
    for parts in ([], [[]]):
        def go():
            m = b.meter(1, [empty([(P, 'active')]) for p in parts])
            return isnan(I.call(I.getattr(m, 'vampire_power'), [], {}))
        judge(ctx, I, C, go, True, 'vampire', 'no readings: not NaN?')


def histogram(ctx, b):
    """the histogram of chunks is that of all the readings"""
    I = b.I
    C = 'histogram_from_generator'
    fn = ctx.anchor(I, 'nilmtk.stats.histogram.histogram_from_generator')
    S = [[1, 5, 9, 4], [0, 2, 2, 8, 11, 3], [7, NAN, 1]]
    for k in (1, 2, 3):
        for cs in itertools.permutations(S, k):
            for rng in (None, (None, None), (2, None), (None, 6), (0, 10),
                        (3, 5)):
                for bins in (None, 2, 4):
                    def go():
                        gen = AGen(iter([series([10 * i for i in range(
                            len(c))], c) for c in cs]))
                        kw = {}
                        if rng is not None:
                            kw['range'] = rng
                        if bins is not None:
                            kw['bins'] = bins
                        return I.call(fn, [gen], kw)
                    first = [x for x in cs[0] if not isnan(x)]
                    lo, hi = rng or (None, None)
                    lo = min(first) if lo is None else lo
                    hi = max(first) if hi is None else hi
                    nb = bins or int(hi - lo)
                    if hi <= lo or nb < 1:
                        continue
                    edges = [lo + Fraction(hi - lo, nb) * i
                             for i in range(nb + 1)]
                    h = [0] * nb
                    for c in cs:
                        for x in c:
                            if isnan(x) or x < lo or x > hi:
                                continue
                            j = min(nb - 1, int((x - lo) /
                                                Fraction(hi - lo, nb)))
                            h[j] += 1
                    for o, v, tr in each(ctx, I, C, go):
                        what = 'chunks %s, range %s, bins %s' % (
                            list(cs), rng, bins)
                        if o != 'return':
                            ctx.violation('histogram', C, '%s: %s' % (
                                what, name(v)), 'nilmtk/stats/histogram.py')
                            continue

                        def look():
                            if not isinstance(v, (tuple, AList)):
                                raise Unk(short(v))
                            hs, bs = list(I.iterate(v))
                            hs, bs = pyval(hs), pyval(bs)
                            ctx.expect(hs == h and len(bs) == len(edges) and
                                       all(abs(x - float(y)) < 1e-9
                                           for x, y in zip(bs, edges)),
                                       'histogram', C,
                                       '%s: %s %s, expected %s %s' % (
                                           what, hs, bs, h,
                                           list(map(float, edges))),
                                       'nilmtk/stats/histogram.py')
                        guard(ctx, C, look)


def resolution(ctx, b):
    """a plot asks for no more rows than pixels, and for some"""
    I = b.I
    C = 'Electric._set_sample_period'
    for dur in (1, 100, 399, 401, 800, 1200, 86400, 800000):
        for w in (None, 100):
            def go():
                m = b.meter(1)
                kw = {'sections': 'S'}
                if w:
                    kw['width'] = w
                r = I.call(I.getattr(m, '_set_sample_period'),
                           [tfr(I, 0, dur)], kw)
                return pyval(r)
            for o, v, tr in each(ctx, I, C, go):
                if o != 'return':
                    ctx.violation('resolution', C, name(v), LOC)
                    continue
                ok = v.get('sections') == 'S' and v.get('resample') is True \
                    and abs(v['sample_period'] - max(1, dur / (
                        w or 800))) <= 0.5
                ctx.expect(ok, 'resolution', C, '%s s for %s points gives '
                           '%s' % (dur, w or 800, v), LOC)


# -------------------------------------------------- entropy and information
def psi(n):
    return -0.5772156649015329 + sum(1. / i for i in range(1, n))


def plain_num(x):
    l = lift(x)
    if l is None or l.co:
        raise Undecided('coordinate %s' % short(x))
    return float(l.const)


def far(p, q):
    return max(abs(a - b) for a, b in zip(p, q))


class Tree(Dom):
    """scipy.spatial.cKDTree: nearest neighbours by the largest difference"""
    __slots__ = ('pts', 'I')

    def __init__(self, I, pts):
        self.pts = [self.point(I, p) for p in I.iterate(pts)]

    @staticmethod
    def point(I, p):
        return tuple(plain_num(x) for x in I.iterate(p))

    def d_truth(self, I):
        return True

    def distance(self, k):
        n = k.pop('p', 2)
        if n == math.inf:
            return far
        if not isinstance(n, (int, float)):
            raise Undecided('norm %s' % short(n))
        return lambda p, q: sum(
            abs(x - y) ** n for x, y in zip(p, q)) ** (1. / n)

    def d_getattr(self, I, nm):
        if nm == 'query':
            def query(I, a, k):
                k = dict(k)
                x = a[0] if a else k.pop('x')
                n = a[1] if len(a) > 1 else k.pop('k', 1)
                dist = self.distance(k)
                if k or len(a) > 2 or not isinstance(n, int):
                    raise Undecided('query %s' % sorted(k))
                pts = list(I.iterate(x))
                many = hasattr(pts[0], 'd_iter') or isinstance(
                    pts[0], (AList, tuple))
                out = []
                for p in pts if many else [x]:
                    p = self.point(I, p)
                    out.append(sorted((dist(p, q), i) for i, q in enumerate(
                        self.pts))[:n])
                if many and n > 1:
                    raise Undecided('table of neighbours')
                if many:
                    return (Arr([r[0][0] for r in out]),
                            Arr([r[0][1] for r in out]))
                if n == 1:
                    return out[0][0]
                return (Arr([d for d, _ in out[0]]),
                        Arr([i for _, i in out[0]]))
            return Native(query, nm)
        if nm == 'query_ball_point':
            def ball(I, a, k):
                k = dict(k)
                p, r = a[:2]
                if len(a) > 2:
                    k['p'] = a[2]
                dist = self.distance(k)
                if k:
                    raise Undecided('query_ball_point %s' % sorted(k))
                p, r = self.point(I, p), plain_num(r)
                return AList([i for i, q in enumerate(self.pts)
                              if dist(p, q) <= r])
            return Native(ball, nm)
        return NotImplemented


def kth(pts, k):
    return [sorted(far(p, q) for q in pts)[k] for p in pts]


def want_entropy(xs, k, base):
    pts = [(float(x),) for x in xs]
    n = len(pts)
    return (psi(n) - psi(k) + math.log(2) + sum(
        math.log(d) for d in kth(pts, k)) / n) / math.log(base)


def want_mi(xs, ys, k, base):
    n = len(xs)
    d = kth(list(zip(map(float, xs), map(float, ys))), k)
    t = psi(k) + psi(n)
    for vs in (xs, ys):
        for i, v in enumerate(vs):
            t -= psi(sum(abs(v - w) < d[i] - 1e-6 for w in vs)) / n
    return t / math.log(base)


def information(ctx, b):
    I = b.I
    noise = itertools.count(1)

    def rand(I, a, k):
        if len(a) != 1 or a[0] != 1:
            raise Undecided('rand %s' % short(a))
        return Arr([(next(noise) * 37 % 100) / 100.])
    I.models.update({
        'scipy.spatial.cKDTree': lambda I, a, k: Tree(I, a[0]),
        'scipy.spatial.KDTree': lambda I, a, k: Tree(I, a[0]),
        'numpy.random.rand': rand,
        'scipy.special.digamma': lambda I, a, k: psi(a[0])
        if isinstance(a[0], int) else Opq('digamma', tuple(a))})
    # (small readings: near 100 W the code's margin of 1e-15 is rounded away;
    # no two differences alike, so that noise decides nothing)
    X, Y, Z = [[v / 32. for v in vs] for vs in (
        (156, 38, 221, 102, 205, 50, 140, 136, 44),
        (146, 46, 52, 223, 65, 95, 201, 76, 8),
        (216, 206, 114, 229, 105, 244, 209, 99, 81))]
    for cut in ([9], [5, 4], [4, 5]):
        for k, base in ((None, None), (1, 2), (2, 10)):
            kw = {} if k is None else {'k': k, 'base': base}
            kk, bb = k or 3, base or 2

            def parts(vs):
                out, at = [], 0
                for n in cut:
                    out.append(vs[at:at + n])
                    at += n
                return out

            def chunks(vs):
                out, at = [], 0
                for p in parts(vs):
                    out.append(power([10 * (at + i) for i in range(len(p))],
                                     p))
                    at += len(p)
                return out
            for fn, pair in (('entropy', (X, None)), ('entropy', (Z, None)),
                             ('mutual_information', (X, Y)),
                             ('mutual_information', (X, Z)),
                             ('mutual_information', (Y, Z))):
                def go():
                    m = b.meter(1, chunks(pair[0]))
                    a = [b.meter(2, chunks(pair[1]))] if pair[1] else []
                    return I.call(I.getattr(m, fn), a, dict(kw))
                if pair[1]:
                    ws = [want_mi(x, y, kk, bb) for x, y in zip(
                        parts(pair[0]), parts(pair[1]))]
                else:
                    ws = [want_entropy(x, kk, bb) for x in parts(pair[0])]
                w = sum(ws) / len(ws)
                C = 'Electric.' + fn
                for o, v, tr in each(ctx, I, C, go):
                    what = '%s %s of %s in chunks of %s' % (fn, kw, pair,
                                                            cut)
                    if o != 'return':
                        ctx.violation('information', C, '%s: %s' % (
                            what, name(v)), LOC)
                        continue

                    def look():
                        l = lift(v)
                        if l is None or l.co:
                            raise Unk(short(v))
                        ctx.expect(abs(float(l.const) - w) < 1e-6,
                                   'information', C, '%s: %s, expected %s' %
                                   (what, float(l.const), w), LOC)
                    guard(ctx, C, look)
