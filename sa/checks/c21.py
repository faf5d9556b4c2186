"""C21  An experiment trains and scores every method on the same readings."""
import itertools
import math
from .tablecommon import *
from .c10 import T, offset
from .c12 import name
from .c19 import f1, r2, close

EXPLANATION = (
    'nilmtk.api.API is interpreted for enumerated experiments: data sets, '
    'buildings, chunkings, missing readings of the mains and of each '
    'appliance, kinds of methods (chunk-wise, joint, neural with epochs, '
    'pretrained), metrics and options. What the methods are trained with, '
    'what they are asked to disaggregate and every score are compared with '
    'the definition.')
ASSUMPTIONS = [
    'loading one meter in the window of its data set is as C04, C05 and C12 '
    'decide; the losses are as C19 decides',
    'a method is any object with partial_fit, disaggregate_chunk, MODEL_NAME '
    'and chunk_wise_training']
LIMITS = ('Plots and printed text are not judged. Chunks of mains and '
          'appliances are those the meters hand out.')
MIN_OBLIGATIONS = 200
LOC = 'nilmtk/api.py'
ACTIVE = ('power', 'active')
APPARENT = ('power', 'apparent')


class World:
    """data sets of one test: readings by (path, building, meter)"""

    def __init__(self):
        self.data = {}
        self.columns = {}
        self.loads = []
        self.windows = []

    def rows(self, path, b, m, win):
        s, e = win
        return [(t, v) for t, v in sorted(self.data[path, b, m].items())
                if (s is None or t >= s) and (e is None or t < e)]


class DS(Dom):
    __slots__ = ('w', 'path', 'win', 'attrs')

    def __init__(self, w, path):
        self.w, self.path, self.win, self.attrs = w, path, (None, None), {}

    def __repr__(self):
        return '<data set %s>' % self.path

    def d_truth(self, I):
        return True

    def d_getattr(self, I, n):
        if n == 'set_window':
            def set_window(I, a, k):
                s = a[0] if a else k.get('start')
                e = a[1] if len(a) > 1 else k.get('end')
                self.win = (s, e)
                self.w.windows.append((self.path, s, e))
            return Native(set_window, n)
        if n == 'buildings':
            return Lookup(lambda I, b: Thing({'elec': Elec(self, b)})
                          if (self.path, b, 'mains') in self.w.data
                          else I.throw('KeyError', b))
        if n == 'metadata':
            return aval({'timezone': 'TZ', 'name': self.path})
        if n == 'store':
            return Thing({'close': Native(lambda I, a, k: None, 'close')})
        return NotImplemented


class Lookup(Dom):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def d_getitem(self, I, key):
        return self.f(I, key)


class Thing(Dom):
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def d_truth(self, I):
        return True

    def d_getattr(self, I, n):
        return self.a.get(n, NotImplemented)


class Elec(Dom):
    __slots__ = ('ds', 'b')

    def __init__(self, ds, b):
        self.ds, self.b = ds, b

    def d_truth(self, I):
        return True

    def d_getattr(self, I, n):
        if n == 'mains':
            return Native(lambda I, a, k: M(self.ds, self.b, 'mains'), n)
        return NotImplemented

    def d_getitem(self, I, key):
        if (self.ds.path, self.b, key) not in self.ds.w.data:
            I.throw('KeyError', key)
        return M(self.ds, self.b, key)


class M(Dom):
    __slots__ = ('ds', 'b', 'm')

    def __init__(self, ds, b, m):
        self.ds, self.b, self.m = ds, b, m

    def __repr__(self):
        return '<meter %s of %s>' % (self.m, self.b)

    def d_truth(self, I):
        return True

    def d_getattr(self, I, n):
        if n == 'load':
            return Native(self.load, n)
        return NotImplemented

    def load(self, I, a, k):
        w = self.ds.w
        kw = {x: pyval(v) for x, v in k.items()}
        if a:
            raise Unk('load(%s)' % (a,))
        w.loads.append((self.m, kw))

        def go():
            rows = w.rows(self.ds.path, self.b, self.m, self.ds.win)
            cols = w.columns.get(self.m, (ACTIVE,))
            n = kw.get('chunksize') or 10 ** 6
            # a chunk is a stretch of time, as the meters cut it
            s = self.ds.win[0] or 0
            last = max([t for t, v in rows], default=s)
            while s <= last:
                part = [(t, v) for t, v in rows if s <= t < s + n]
                s += n
                yield table(part, cols)
        return AGen(go())


def table(part, cols=(ACTIVE,)):
    return Frame(Idx([T(t) for t, v in part], dt=True),
                 Idx(list(cols), names=['physical_quantity', 'type']),
                 [[v if isnan(v) else v + 0.25 * j for t, v in part]
                  for j, c in enumerate(cols)])


class Method(Dom):
    """a method which notes what it is given and guesses from the mains"""
    __slots__ = ('n', 'attrs', 'log', 'apps', 'shape')

    def __init__(self, n, apps, attrs, shape='index'):
        self.n, self.apps, self.shape = n, apps, shape
        self.attrs = dict({'MODEL_NAME': 'model ' + str(n),
                           'chunk_wise_training': False}, **attrs)
        self.log = []

    def __repr__(self):
        return '<method %s>' % self.n

    def d_truth(self, I):
        return True

    def d_setattr(self, I, n, v):
        self.attrs[n] = v

    def guess(self, app, v):
        i = self.apps.index(app)
        return v * (0.25 + 0.25 * i) + 3.0 * len(self.n) + i

    def d_getattr(self, I, n):
        if n in self.attrs:
            return self.attrs[n]
        if n in ('n_epochs', 'load_model_path'):
            I.throw('AttributeError', n)
        if n == 'partial_fit':
            def fit(I, a, k):
                if len(a) > 2:
                    I.throw('TypeError', 'partial_fit() takes 3 positional '
                            'arguments but %d were given' % (len(a) + 1))
                k = dict(k)
                m = a[0] if a else k.pop('train_main', None)
                s = a[1] if len(a) > 1 else k.pop('train_appliances')
                self.log.append(('fit', [content(f) for f in I.iterate(m)],
                                 [(x[0], [content(f) for f in
                                          I.iterate(x[1])]) for x in map(
                                  list, map(I.iterate, I.iterate(s)))],
                                 {x: pyval(v) for x, v in k.items()},
                                 self.attrs.get('n_epochs')))
            return Native(fit, n)
        if n == 'disaggregate_chunk':
            def dis(I, a, k):
                fs = list(I.iterate(a[0]))
                self.log.append(('predict', [content(f) for f in fs]))
                out = []
                if self.shape == 'pieces':
                    fs = [part(f, w) for f in fs for w in (0, 1)]
                for f in fs:
                    vals = list(f.data[0]) if f.data else []
                    cols = list(reversed(self.apps)) if \
                        self.shape == 'swapped' else list(self.apps)
                    data = [[self.guess(x, v) for v in vals] for x in cols]
                    ix = f.idx
                    if self.shape in ('range', 'padded'):
                        if self.shape == 'padded':
                            data = [d + [777.0, 888.0] for d in data]
                        ix = Idx(range(len(data[0])))
                    out.append(Frame(ix, Idx(cols), data))
                return AList(out)
            return Native(dis, n)
        return NotImplemented


def part(f, second):
    """the first two rows of a table, or the others"""
    n = len(f.idx.labels)
    pick = [i for i in range(n) if (i >= 2) == bool(second)]
    return Frame(Idx([f.idx.labels[i] for i in pick], dt=True), f.cols,
                 [[d[i] for i in pick] for d in f.data])


def content(f):
    """{time: [cells]} of a table of readings"""
    if not isinstance(f, Frame):
        raise Unk(short(f))
    out = {}
    for i, l in enumerate(f.idx.labels):
        cells = []
        for d in f.data:
            v = d[i]
            if not isnan(v) and isinstance(v, Lin):
                raise Unk(short(v))
            cells.append(None if isnan(v) else float(v))
        t = offset(l)
        if t in out:
            return 'time %s twice' % t
        out[t] = cells
    return out


LOSS = {
    'mae': lambda g, p: sum(abs(x - y) for x, y in zip(g, p)) / len(g),
    'rmse': lambda g, p: math.sqrt(sum((x - y) ** 2 for x, y in zip(
        g, p)) / len(g)),
    'nde': lambda g, p: math.sqrt(sum((x - y) ** 2 for x, y in zip(
        g, p)) / sum(x * x for x in g)),
    'nep': lambda g, p: sum(abs(x - y) for x, y in zip(g, p)) / sum(g)}


class Case:
    """an experiment and what it has to do"""

    def __init__(self, train, test, apps, methods, **opt):
        self.train, self.test, self.apps = train, test, apps
        self.methods, self.opt = methods, opt
        self.chunk = opt.get('chunk_size')

    def params(self):
        def side(d):
            return {n: {'path': path, 'buildings': {
                b: {'start_time': s, 'end_time': e}
                for b, (s, e) in bs.items()}}
                for n, (path, bs) in d.items()}
        p = {'power': {'mains': ['active'], 'appliance': ['active']},
             'appliances': self.apps,
             'train': {'datasets': side(self.train)},
             'test': {'datasets': side(self.test),
                      'metrics': self.opt.get('metrics', ['mae', 'rmse'])}}
        for k, v in self.opt.items():
            if k in ('chunk_size', 'sample_rate', 'artificial_aggregate',
                     'DROP_ALL_NANS', 'site_only', 'display_predictions'):
                p[k] = v
        return p

    def units(self, w, side, chunked):
        """(data set, building, chunk) -> mains, {appliance: readings}"""
        keep = self.opt.get('DROP_ALL_NANS', True)
        for n, (path, bs) in side.items():
            for b, win in bs.items():
                names = ['mains'] + list(self.apps)
                rows = {m: dict(w.rows(path, b, m, win)) for m in names}
                s = win[0] or 0
                step = self.chunk if chunked else 10 ** 6
                last = max(rows['mains'], default=s)
                i = 0
                while s <= last:
                    part = {m: {t: v for t, v in rows[m].items()
                                if s <= t < s + step} for m in names}
                    if keep:
                        use = names
                        if self.opt.get('site_only') and not chunked and \
                                side is self.test:
                            use = ['mains']
                        ok = [t for t in part['mains'] if all(
                            t in part[m] and not isnan(part[m][t])
                            for m in use)]
                        part = {m: {t: part[m][t] for t in ok
                                    if t in part[m]} for m in names}
                    if self.opt.get('artificial_aggregate'):
                        part['mains'] = {
                            t: sum(part[x][t] for x in self.apps)
                            for t in part[self.apps[0]]}
                    yield (n, b, i if chunked else None), part, rows
                    s += step
                    i += 1


def as_table(d, n=1):
    return {float(t): [None if isnan(v) else v + 0.25 * j for j in range(n)]
            for t, v in d.items()}


def run(ctx):
    I = ctx.interp(models=dict(TM))
    I.models['sklearn.metrics.f1_score'] = f1
    I.models['sklearn.metrics.r2_score'] = r2
    ctx.anchor(I, 'nilmtk.api.API')
    for what, w, case in experiments(ctx.tier == 'thorough'):
        experiment(ctx, I, what, w, case)
    dropna(ctx, I)
    ctx.absorb(I)


# ---------------------------------------------------------------- experiments
def readings(seed, n, step=10, start=0, miss=(), nan=()):
    out = {}
    for i in range(n):
        t = start + i * step
        if i in miss:
            continue
        out[t] = NAN if i in nan else float((i * 37 + seed * 53) % 97 + seed) + 0.5
    return out


def world(gap=0):
    """two data sets of two buildings; gap says which readings miss"""
    w = World()
    for d, path in enumerate(('one.h5', 'two.h5')):
        for b in (1, 2):
            s = 1 + 4 * d + 2 * b
            w.data[path, b, 'mains'] = readings(s, 12, miss=(
                (), (3,), (0, 11), ())[gap], nan=((), (5,), (), (4,))[gap])
            w.data[path, b, 'fridge'] = readings(s + 20, 12, miss=(
                (), (7,), (1,), (2, 9))[gap], nan=((), (), (2, 8), ())[gap])
            w.data[path, b, 'kettle'] = readings(
                s + 40, 12 if gap != 3 else 14, miss=(
                    (), (), (10,), ())[gap], nan=((), (0,), (6,), (1,))[gap])
    return w


def experiments(thorough):
    A = ['fridge', 'kettle']
    all_ = {1: (0, 120), 2: (0, 120)}
    one = {'D': ('one.h5', {1: (0, 60)})}
    early = {'D': ('one.h5', {1: (0, 120)})}
    later = {'D': ('one.h5', {1: (60, 120)})}
    both = {'D': ('one.h5', {1: (0, 60), 2: (30, 100)}),
            'E': ('two.h5', {2: (10, 110)})}
    two = {'E': ('two.h5', {1: (20, 110), 2: (0, 50)}),
           'D': ('one.h5', {2: (0, 120)})}

    def ms(*kinds):
        def make():
            out = []
            for i, k in enumerate(kinds):
                kw = {'joint': {}, 'chunky': {'chunk_wise_training': True},
                      'swapped': {}, 'padded': {}, 'range': {},
                      'pieces': {},
                      'neural': {'chunk_wise_training': True, 'n_epochs': 3},
                      'nj': {'n_epochs': 3},
                      'ready': {'load_model_path': 'models'},
                      'readychunky': {'load_model_path': 'models',
                                      'chunk_wise_training': True},
                      'readyneural': {'load_model_path': 'models',
                                      'chunk_wise_training': True,
                                      'n_epochs': 2},
                      'unreadychunky': {'load_model_path': '',
                                        'chunk_wise_training': True},
                      'unready': {'load_model_path': None}}[k]
                out.append(Method('ABCD'[i] * (i + 1), A, kw,
                                  k if k in ('swapped', 'padded', 'range',
                                             'pieces')
                                  else 'index'))
            return out
        return make
    for gap in range(4):
        for chunk in (None, 40):
            yield ('gaps %d, chunks of %s' % (gap, chunk), world(gap), Case(
                both, two, A, ms('joint', 'chunky'), chunk_size=chunk))
    w = world(1)
    yield ('one building', w, Case(one, later, A, ms('joint')))
    for chunk in (None, 50, 120):
        for kinds in (('neural', 'joint'), ('ready', 'chunky', 'unready'),
                      ('readychunky', 'unreadychunky', 'readyneural'),
                      ('nj', 'swapped'), ('padded', 'range'),
                      ('pieces', 'joint')):
            yield ('methods %s, chunks of %s' % (kinds, chunk), world(2),
                   Case(one, two, A, ms(*kinds), chunk_size=chunk,
                        metrics=['nep', 'mae', 'nde']))
        yield ('an artificial aggregate, chunks of %s' % chunk, world(3),
               Case(both, later, A, ms('joint', 'chunky'), chunk_size=chunk,
                    artificial_aggregate=True))
        yield ('unknown metrics, chunks of %s' % chunk, world(0), Case(
            one, later, A, ms('joint'), chunk_size=chunk,
            metrics=['nope', 'rmse', 'accuracy']))
        yield ('missing readings kept, chunks of %s' % chunk, world(0), Case(
            both, two, A, ms('joint', 'chunky'), chunk_size=chunk,
            DROP_ALL_NANS=False, sample_rate=6))
        yield ('no metric, chunks of %s' % chunk, world(1), Case(
            one, two, A, ms('joint'), chunk_size=chunk, metrics=[]))
        yield ('one appliance, chunks of %s' % chunk, world(2), Case(
            one, two, ['kettle'], lambda: [Method('A', ['kettle'], {})],
            chunk_size=chunk, sample_rate=60))
        yield ('an artificial aggregate of one appliance, chunks of %s' %
               chunk, world(2), Case(
                   one, two, ['kettle'], lambda: [Method('A', ['kettle'],
                                                         {})],
                   chunk_size=chunk, artificial_aggregate=True))
    for chunk in (None, 50):
        w = world(3)
        w.columns['mains'] = (ACTIVE, APPARENT)
        if chunk is None:
            w.columns['fridge'] = (ACTIVE, APPARENT)
        yield ('several AC types, chunks of %s' % chunk, w, Case(
            both, {}, A, ms('joint'), chunk_size=chunk))
    for short_ in ('fridge', 'kettle'):
        for chunk in (None, 40):
            w = world(1)
            w.data['one.h5', 1, short_] = readings(3, 5)
            yield ('the readings of the %s end early, chunks of %s' % (
                short_, chunk), w, Case(early, early, A, ms(
                    'joint', 'chunky'), chunk_size=chunk))
    yield ('the site alone', world(2), Case(
        one, two, A, ms('joint', 'swapped'), site_only=True))
    if thorough:
        for k in itertools.product(('joint', 'chunky', 'neural', 'ready'),
                                   repeat=2):
            for gap in range(4):
                for chunk in (None, 30, 70):
                    yield ('%s, gaps %d, chunks of %s' % (k, gap, chunk),
                           world(gap), Case(both, two, A, ms(*k),
                                            chunk_size=chunk))


def experiment(ctx, I, what, w, case):
    C = 'API'
    state = {}

    def go():
        I.overrides['nilmtk.dataset.DataSet'] = lambda I, a, k: DS(
            w, a[0] if a else k['filename'])
        w.loads[:], w.windows[:] = [], []
        state['ms'] = case.methods()
        p = aval(case.params())
        I.dict_set(p, 'methods', ADict([(m.n, m) for m in state['ms']]))
        return I.call(I.get('nilmtk.api.API'), [p], {})
    try:
        for o, v, tr in each(ctx, I, C, go):
            if o != 'return':
                ctx.violation('experiment', C, '%s: %s' % (what, name(v)),
                              LOC)
                continue
            for f in (trained, tested, scored, loaded):
                guard(ctx, C, lambda: f(ctx, I, what, w, case, state['ms'],
                                        v))
    finally:
        I.overrides.pop('nilmtk.dataset.DataSet', None)


def trained(ctx, I, what, w, case, ms, api):
    C = 'API.train'
    for m in ms:
        fits = [e for e in m.log if e[0] == 'fit']
        if m.attrs.get('load_model_path'):
            ctx.expect(not fits, 'pretrained', C, '%s: a pretrained method '
                       'is trained' % what, LOC)
            continue
        chunked = bool(case.chunk and m.attrs['chunk_wise_training'])
        us = [u for u in case.units(w, case.train, chunked)]
        want = []
        if not chunked:
            want.append(([as_table(p['mains']) for u, p, r in us],
                         [(a, [as_table(p[a]) for u, p, r in us])
                          for a in case.apps], {}))
        else:
            n = 3 if m.n and 'n_epochs' in m.attrs else 1
            for e in range(n):
                for u, p, r in us:
                    want.append(([as_table(p['mains'])], [
                        (a, [as_table(p[a])]) for a in case.apps], e))
        ctx.expect(len(fits) == len(want), 'training-calls', C,
                   '%s: %s is trained %d times, expected %d' % (
                       what, m.n, len(fits), len(want)), LOC)
        for f, x in zip(fits, want):
            ctx.expect(f[1] == x[0], 'training-mains', C,
                       '%s: mains %s, expected %s' % (what, f[1], x[0]), LOC)
            ctx.expect([a for a, d in f[2]] == [a for a, d in x[1]],
                       'training-names', C, '%s: appliances %s' % (
                           what, [a for a, d in f[2]]), LOC)
            ctx.expect([d for a, d in f[2]] == [d for a, d in x[1]],
                       'training-readings', C, '%s: %s, expected %s' % (
                           what, f[2], x[1]), LOC)
            if chunked and 'n_epochs' in m.attrs:
                ctx.expect(f[3].get('current_epoch') == x[2] and f[4] == 1,
                           'epoch', C, '%s: epoch %s of %s, expected %s of 1'
                           % (what, f[3].get('current_epoch'), f[4], x[2]),
                           LOC)


def tested(ctx, I, what, w, case, ms, api):
    C = 'API.test'
    us = list(case.units(w, case.test, bool(case.chunk)))
    for m in ms:
        got = [e[1] for e in m.log if e[0] == 'predict']
        want = [[as_table(p['mains'])] for u, p, r in us]
        ctx.expect(got == want, 'test-mains', C, '%s: %s is asked about %s, '
                   'expected %s' % (what, m.n, got, want), LOC)
        i = [e[0] for e in m.log]
        ctx.expect('fit' not in i[i.index('predict'):] if 'predict' in i
                   else True, 'train-before-test', C,
                   '%s: %s trained after a test' % (what, m.n), LOC)


def scored(ctx, I, what, w, case, ms, api):
    C = 'API.scores'
    keys = [pyval(x) for x in I.iterate(I.getattr(api, 'errors_keys'))]
    errs = list(I.iterate(I.getattr(api, 'errors')))
    metrics = [x for x in case.opt.get('metrics', ['mae', 'rmse'])
               if x in LOSS]
    want = {}
    site = case.opt.get('site_only')
    last = None
    for u, p, r in case.units(w, case.test, bool(case.chunk)):
        last = p
        ts = sorted(p[case.apps[0]])
        if site or not ts:
            continue
        key = '_'.join(str(x) for x in u if x is not None)
        for x in metrics:
            want[key + '_' + x] = {
                (a, m.n): LOSS[x]([p[a][t] for t in ts], [
                    m.guess(a, p['mains'][t]) for t in ts])
                for a in case.apps for m in ms}
    ctx.expect(keys == list(want) and len(errs) == len(keys),
               'score-keys', C, '%s: scores %s (%d tables), expected %s' % (
                   what, keys, len(errs), list(want)), LOC)
    for k, e in zip(keys, errs):
        if k not in want or not isinstance(e, Frame):
            continue
        got = {}
        for j, c in enumerate(e.cols.labels):
            for i, l in enumerate(e.idx.labels):
                got[pyval(l), pyval(c)] = e.data[j][i]
        ok = set(got) == set(want[k]) and all(
            near(got[x], want[k][x]) for x in got)
        ctx.expect(ok, 'scores', C, '%s: %s is %s, expected %s' % (
            what, k, {a: short(b) for a, b in got.items()}, want[k]), LOC)
    if last is None:
        return
    pred = I.getattr(api, 'pred_overall')
    for m in ms:
        f = I.dict_get(pred, m.n) if isinstance(pred, ADict) else None
        if not isinstance(f, Frame):
            raise Unk(short(f))
        got = {pyval(c): [x for x in f.data[j]]
               for j, c in enumerate(f.cols.labels)}
        exp = {a: [m.guess(a, last['mains'][t]) for t in sorted(
            last['mains'])] for a in case.apps}
        ok = set(got) == set(exp) and all(
            len(got[a]) == len(exp[a]) and all(
                near(x, y) for x, y in zip(got[a], exp[a])) for a in got)
        ctx.expect(ok, 'predictions', C, '%s: predictions of %s %s, '
                   'expected %s' % (what, m.n, {
                       a: [short(x) for x in b] for a, b in got.items()},
                       exp), LOC)
        if not site and ok:
            ctx.expect([offset(l) for l in f.idx.labels] == sorted(
                map(float, last['mains'])), 'prediction-times', C,
                '%s: predictions at %s' % (what, f.idx.labels), LOC)


def near(x, y):
    # kept in single precision
    if isnan(x) or isnan(y):
        return isnan(x) and isnan(y)
    try:
        return abs(float(x) - float(y)) <= 1e-5 * max(1, abs(float(y)))
    except TypeError:
        raise Unk(short(x))


def loaded(ctx, I, what, w, case, ms, api):
    C = 'API.load'
    for m, kw in w.loads:
        ac = kw.get('ac_type')
        ctx.expect(kw.get('physical_quantity') == 'power' and
                   ac in (['active'], 'active') and
                   kw.get('sample_period') == case.opt.get('sample_rate', 1),
                   'load-options', C, '%s: %s loaded with %s' % (
                       what, m, kw), LOC)


# --------------------------------------------------------------------- dropna
def dropna(ctx, I):
    """rows that every table has, without missing readings"""
    C = 'API.dropna'
    cls = I.get('nilmtk.api.API')
    f = cls.lookup('dropna')
    if f is None:
        return
    tabs = [[(0, 1.0), (10, NAN), (20, 3.0), (30, 4.0)],
            [(0, 5.0), (10, 6.0), (20, 7.0)],
            [(0, NAN), (20, 8.0), (30, 9.0), (40, 1.0)],
            [(20, 2.0), (30, 6.0)], [], [(50, 1.0)]]
    for n in (0, 1, 2):
        for pick in itertools.product(tabs, repeat=n):
            for m in tabs:
                def go():
                    o = AObj(cls, {})
                    return I.call(f, [o, table(m), AList(
                        [table(x) for x in pick])], {})
                use = [dict(x) for x in (m,) + pick]
                ok = [t for t in sorted(use[0]) if all(
                    t in x and not isnan(x[t]) for x in use)]
                for o, v, tr in each(ctx, I, C, go):
                    what = 'mains %s, appliances %s' % (m, pick)
                    if o != 'return':
                        ctx.violation('common-rows', C, '%s: %s' % (
                            what, name(v)), LOC)
                        continue

                    def look():
                        got = [content(v[0])] + [
                            content(x) for x in I.iterate(v[1])]
                        want = [as_table({t: x[t] for t in ok}) for x in use]
                        ctx.expect(got == want, 'common-rows', C,
                                   '%s: %s, expected %s' % (what, got, want),
                                   LOC)
                    guard(ctx, C, look)
